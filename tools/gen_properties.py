#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so that quoting stays right).
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

add("C01", "Parsing any byte string terminates with a document or an error",
 "For every byte string, parsing it into a document returns exactly one of a document and an error, and parsing it with a SAX handler that has any subset of its callbacks set (and builds no tree) returns an error or nothing: it never panics, never loops and never kills the process. The work done stays bounded: a document of a few hundred kilobytes, whatever its shape (long text, long runs of blanks, many attributes, deep nesting, nested entities, nested content models), is decided within seconds of CPU time.",
 ["inputs"], "every byte string, including truncations, random bytes, token soups and size-stressed documents",
 "The suite parses ten-odd small well-formed files and a few short bad strings; the hang/panic paths need truncated or odd input in every construct.",
 ["parser.go", "parserctx.go", "tree.go", "document.go"],
 [("every scanning loop advances or returns", "parserctx.go"), ("entity depth / expansion limits", "parserctx.go parseBalancedChunkInternal"), ("content model depth limit", "parserctx.go parseElementChildrenContentDeclPriv")],
 ["return values of Parse", "process exit status and CPU time of the worker that parses"])

add("C02", "A well-formed document is parsed into exactly its infoset",
 "For every well-formed document using elements, attributes, character data, CDATA sections, character references, predefined entities, comments and processing instructions, parsing succeeds and the tree holds exactly those nodes: same nesting and order, same qualified names, same attribute names, order and values, text with references replaced, CDATA kept as text and line ends normalised to a single newline, same comments and processing instructions, inside and outside the root element. Nothing is dropped, duplicated, merged across markup or reordered, and blanks between elements are kept.",
 ["inputs"], "every well-formed document over the supported constructs, in every lexical spelling (quotes, blanks in tags, empty-element form, CDATA vs. references, line ends)",
 "TestXMLToDOMToXMLString compares a handful of sample files with themselves after serialisation; it never looks at the tree and covers few spellings.",
 ["parserctx.go", "tree.go", "node.go", "element.go", "text.go"],
 [("parseContent / parseStartTag / parseCharData", "parserctx.go"), ("TreeBuilder callbacks build the tree", "tree.go")],
 ["public node accessors (FirstChild, NextSibling, Name, Attributes, Content, Type)"])

add("C03", "Documents that are not well-formed are rejected",
 "Any document that violates a well-formedness rule of the supported constructs is rejected with an error and yields no document: mismatched, missing or extra tags, content outside the root, no root, duplicate attributes, missing quotes, '=' or blanks in tags, '<' or a bare '&' in values or text, ']]>' in text, '--' in comments, unterminated constructs, illegal characters (also as references and also after the root element), misplaced or malformed XML declarations, and malformed DOCTYPE declarations.",
 ["inputs"], "every single-fault mutation of every generated well-formed document, at every position",
 "TestParseBad holds a few fixed strings; acceptance of ill-formed input needs each rule violated in each context.",
 ["parserctx.go", "tree.go", "element.go"],
 [("each parse function's error returns", "parserctx.go"), ("duplicate attribute check", "parserctx.go parseStartTag, element.go SetAttribute"), ("trailing content check", "parserctx.go parseDocument")],
 ["return values of Parse"])

add("C04", "Serialising a parsed document and parsing it again changes nothing",
 "For every document the parser accepts (and that uses no parameter-entity reference, which is not expanded), serialising the resulting tree succeeds and gives text which parses again into an equal tree: same nodes, names, namespace declarations, attribute values, text, comments, processing instructions, entity references, XML declaration and document type declarations. (An absent XML declaration may come back as an explicit version 1.0.) Serialising that second tree gives byte-for-byte the same text, serialising does not alter the tree, each node serialised by itself has the very text it has within its document, and an error of the writer is reported.",
 ["inputs"], "every document accepted by the parser, including ones with a DTD, entities and awkward characters in values",
 "The golden-file test covers about a dozen sample files without awkward characters, attribute values needing escapes, PIs or varied DTD content.",
 ["dump.go", "parserctx.go", "tree.go"],
 [("Dumper.DumpDoc / DumpNode", "dump.go"), ("escapeText, escapeAttrValue, dumpQuotedString", "dump.go")],
 ["Document.XMLString, Document.XML, Dumper"])

add("C05", "Trees built through the API serialise to well-formed, injection-free XML",
 "For every tree built through the public API from legal names and arbitrary legal characters in text, attribute values (given as XML-escaped text) and namespace names, the serialised output is well-formed and an independent XML parser reads back exactly the same elements, attributes, namespace declarations and text. No text or value, whatever markup characters, quotes, line ends or blanks it contains, can add, remove or change an element, attribute, comment or character, and bytes that are not legal XML characters never reach the output.",
 ["programs", "inputs"], "every sequence of tree-building calls and every string over a hostile alphabet (markup, quotes, controls, invalid UTF-8, astral characters)",
 "TestDOMToXMLString builds one fixed tree; escaping faults need specific characters in specific positions.",
 ["dump.go", "document.go", "element.go", "text.go"],
 [("escapeText / escapeAttrValue", "dump.go"), ("dumpNs", "dump.go")],
 ["Document.XMLString, Element.XMLString"])

add("C06", "SAX events are well nested, in document order, and agree with the tree",
 "For every well-formed document the SAX callbacks form one well-nested stream: the locator, one start-document, document type events before the root, balanced start/end element pairs with equal names, content events in document order only inside or beside the elements they belong to, and one end-document last. Concatenating adjacent character events, the stream carries exactly the document's elements, attributes, namespace declarations, text, CDATA, comments, processing instructions and references, and it is the same stream whatever other callbacks are set. Nothing but white space is ever reported as ignorable white space, and when a tree is built along, white space is not ignorable in elements declared with mixed content, ANY or EMPTY, and is in elements declared with element content.",
 ["inputs", "configurations"], "every well-formed document and every subset of the handler's callbacks",
 "The SAX golden test does not even pass at this commit, and the only other SAX test checks an interface assertion.",
 ["parserctx.go", "sax/sax2.go", "sax/interface.go", "tree.go"],
 [("callback firing in parse functions", "parserctx.go"), ("callback dispatch", "sax/sax2.go")],
 ["registered sax.SAX2 handlers"])

add("C07", "Tree edits keep parent, child and sibling links consistent",
 "After any sequence of adding children, siblings and content to nodes, replacing nodes and setting the document element, with nodes that are not already part of a tree, the tree equals the one a plain list-of-children model predicts: first/last child, next/previous sibling and parent links all agree, appended text next to text is merged, replaced nodes are fully detached with the new node in their place, the attributes of an element are linked with one another in the same way, and no node is lost or duplicated. Moving a tree to another document (SetTreeDoc) changes the owner of all of its nodes and nothing else, and setting an attribute adds it, or is refused as a duplicate. Operations a node cannot perform report an error and leave the tree as it was.",
 ["programs", "histories"], "every sequence of tree operations over elements, text, comments, processing instructions and references",
 "element_test.go and text_test.go perform four fixed short sequences.",
 ["node.go", "element.go", "text.go", "comment.go", "document.go", "pi.go", "reference.go"],
 [("addChild / addSibling / replaceNode", "node.go"), ("Text.AddSibling / AddChild merging", "text.go"), ("SetDocumentElement", "document.go")],
 ["public node accessors after every operation"],
 [dict(name="firstChild/lastChild/next/prev/parent", meaning="doubly linked tree", where="interface.go docnode")])

add("C08", "Namespace prefixes resolve to the innermost declaration in scope",
 "For every document, each element reports the namespace name bound to its prefix (or to the default namespace) by the nearest enclosing declaration, inner declarations override outer ones, an empty default declaration removes the default, and a declaration ends with the element that carries it. Using an element or attribute prefix with no declaration in scope, declaring the same prefix twice in one tag, or giving one tag two attributes with the same expanded name is an error, and so is a colon in a processing instruction target or the name of an entity; each declaration is reported exactly once, on the element that carries it.",
 ["inputs"], "every nesting of declarations, redeclarations, undeclarations and uses over a few prefixes and URIs, to depths well beyond any stack reallocation threshold",
 "TestParseNamespace parses one document with one declaration on the root.",
 ["parserctx.go", "stack.go", "internal/stack/unique.go", "internal/stack/stack.go", "tree.go", "node.go", "dump.go"],
 [("namespace stack push/lookup/pop", "stack.go, parserctx.go parseStartTag/parseEndTag"), ("TreeBuilder.StartElementNS", "tree.go")],
 ["Element.URI/Prefix/Namespaces and StartElementNS arguments"],
 [dict(name="nsTab", meaning="bindings in scope", where="interface parserCtx")])

add("C09", "Character and entity references mean what they are declared to mean",
 "A decimal or hexadecimal character reference yields exactly that character when it is a legal XML character and an error otherwise, however many digits it has; the five predefined entities yield their characters; a reference to a declared internal entity is kept as a reference carrying the declared replacement text, in content and in attribute values, the first declaration of a name wins, and the content of the entity is checked to be well-formed. References that are undeclared, unterminated, recursive (directly or through other entities), or that put a '<' into an attribute value are errors, and nested expansion is bounded instead of exploding. An entity that is not declared is no error when the document refers to parameter entities and is not declared standalone='yes'; declarations in a referenced, declared parameter entity count like any other. References made through the API to entities added through it, and references to entities that a SAX handler provides, stand for the same text as in a parsed document.",
 ["inputs"], "every code point and digit string; every graph of internal entities over content and attribute uses",
 "Tests use a couple of predefined entities; code-point limits, overflow, entity graphs and recursion are unsampled.",
 ["parserctx.go", "entity.go", "document.go", "reference.go", "dtd.go"],
 [("parseCharRef, parseEntityRef, parseReference", "parserctx.go"), ("entity depth and expansion limits", "parserctx.go parseBalancedChunkInternal"), ("stringToNodeList", "document.go")],
 ["DOM content and attribute values", "Parse errors"])

add("C10", "Internal-subset declarations are kept with their exact meaning",
 "For every internal subset of element, attribute-list and internal entity declarations (with comments and processing instructions between them), parsing succeeds exactly when the declarations are well-formed, and the serialised document declares the same: content models that accept the same child sequences, the same attribute types, enumerations, default kinds and default values, and entities with the same replacement text, in the same order. Nesting, occurrence operators, blanks and the number of names in a model change nothing of this.",
 ["inputs"], "every content model up to several nesting levels with every operator, every attribute type and default kind, entities over hostile characters",
 "TestElementContent and the samples hold a few simple models; operator and nesting combinations are unsampled.",
 ["parserctx.go", "dtd.go", "valid.go", "dump.go", "tree.go"],
 [("parseElementContentDecl and friends", "parserctx.go"), ("copyElementContent", "valid.go"), ("dumpElementContent, dumpAttributeDecl, dumpEntityDecl", "dump.go")],
 ["Document.XMLString", "SAX ElementDecl/AttributeDecl/EntityDecl events"])

add("C11", "Attribute values are normalised by declared type, defaults reported once",
 "In every attribute value each literal blank character becomes one space while character references to blanks are kept; when the internal subset declares the attribute of that element (by its full names) with a type other than CDATA, leading and trailing spaces are dropped and inner runs of spaces become one, and otherwise they are all kept. A declared default is reported to a SAX handler exactly once, marked as default, on every element of that type which does not specify the attribute, never overrides or duplicates a specified one, and the order of attributes is the same on every run.",
 ["inputs"], "every attribute type and default kind, every mix of blanks and references, prefixed and unprefixed names",
 "No test declares a tokenized attribute with blanks in its value or reads SAX default attributes.",
 ["parserctx.go", "attr.go", "tree.go"],
 [("parseAttributeValueInternal, attrNormalizeSpace", "parserctx.go"), ("addSpecialAttribute / addAttributeDefault", "parserctx.go")],
 ["Attribute.Value", "StartElementNS attribute list"])

add("C12", "The declared encoding decides how bytes are read and nothing else",
 "A document encoded in any of the supported encodings and declaring it (in any letter case) parses into the same tree as its UTF-8 form, for every character the encoding can represent; with a UTF-8 byte order mark the tree is the same as without. A document whose declared or detected encoding is not supported (UTF-16 and UCS-4 included), or whose bytes are invalid in its encoding, is rejected with an error rather than read wrongly, and the declared encoding name is kept.",
 ["inputs", "configurations"], "every supported encoding name and every character in its repertoire (single-byte encodings exhaustively), invalid byte sequences at every position",
 "encoding_test.go loads one encoding and TestDetectBOM checks one mark; no test compares decoded content.",
 ["encoding/encoding.go", "parserctx.go", "document.go"],
 [("encoding.Load name table", "encoding/encoding.go"), ("detectEncoding / switchEncoding", "parserctx.go")],
 ["DOM content", "encoding.Load", "Document.Encoding"])

add("C13", "Parse errors point at the place in the input where parsing stopped",
 "Every rejected document gives a parse error carrying a line number and column: the line is one of the document's lines, not before the line of the first fault, and for a fault that is a single illegal token on its own line it is exactly that line. Inserting blank lines before the faulty part moves the reported line by exactly that many and leaves the column and message unchanged, and the error's text names that line and column.",
 ["inputs"], "every fault kind at every line of every generated document, with every amount of preceding lines",
 "No test looks at the position in an error.",
 ["parserctx.go", "errors.go", "parser_interface.go"],
 [("parserCtx.error fills position from the cursor", "parserctx.go"), ("ErrParseError.Error", "errors.go")],
 ["ErrParseError fields and text"])

add("C14", "Parses, parsers and documents are independent of one another",
 "Any number of goroutines may parse and serialise at the same time, with separate parsers or a shared one, without data races, and each gets exactly the result it would get alone. A parser gives the same result for the same input whatever it parsed before (failures included), parsing the same bytes twice gives equal results, parsing never modifies the input, later changes to the caller's buffers never show in a document, and editing one document never changes another.",
 ["schedules", "histories"], "every interleaving of parses and serialisations over a mixed corpus of good and bad documents, and every order of reuse",
 "All tests run one parse at a time on a fresh parser, and never under the race detector.",
 ["parserctx.go", "parser.go", "dump.go", "entity.go", "comment.go", "text.go"],
 [("per-parse context", "parser.go Parse"), ("buffer pool get/reset/put", "parserctx.go"), ("byte copies handed to nodes", "text.go, comment.go")],
 ["race detector reports", "digest of every result against its sequential run"],
 [dict(name="bufferPool", meaning="shared scratch buffers", where="parserctx.go")])

add("C15", "A construct means the same at every offset, size and nesting depth",
 "What a piece of markup parses into does not depend on where it stands or how large it is: shifting it by any number of bytes, with one- to four-byte characters before, inside or after it, repeating it, or making names, values, text, comments, processing instructions, attribute lists, sibling lists or nesting long (names up to the limit of 50,000 characters, nesting up to that of 500,000 elements) only changes the result by that shift, repetition or length. In particular nothing is lost, duplicated or split where internal read buffers, lookahead buffers or stacks fill up, grow or shrink.",
 ["inputs"], "every construct at every byte offset across several buffer lengths, and sizes crossing every internal buffer and stack threshold",
 "The samples are short and at fixed offsets, so buffer boundaries fall where they fall.",
 ["parserctx.go", "internal/stack/stack.go", "internal/stack/simple.go", "stack.go", "text.go"],
 [("cursor lookahead use", "parserctx.go"), ("stack growth and reallocation", "internal/stack/stack.go")],
 ["DOM of padded/scaled document against that of the base document"])

add("C16", "A SAX callback's error stops the parse and is reported",
 "When any SAX callback returns an error, at any event of any document, parsing stops at that point, no further content callbacks are made, and the caller gets an error that carries it; exceptions are the documented 'handler unspecified' value, which is ignored exactly like an absent callback, and the entity lookup callbacks, whose error means that the entity is not known. A handler whose callbacks are all absent parses the same documents and rejects the same documents as one whose callbacks all succeed. Each method of the SAX2 handler hands the arguments it is given, unchanged and in order, to the callback of its own name and returns what that callback returns.",
 ["fault_sequences", "inputs"], "every event index of every generated document as the failing one",
 "No test makes a callback fail.",
 ["parserctx.go", "sax/sax2.go"],
 [("callback error switches", "parserctx.go"), ("ErrHandlerUnspecified", "sax/sax2.go")],
 ["registered callbacks and Parse's error"])

add("C17", "helium-lint prints the serialised documents and exits by the parse result",
 "Given files or standard input, helium-lint writes exactly the serialised form of each document, in order, and exits 0 when all of them parse. On a parse error, an unreadable file, an output that cannot be written or a bad option it writes a diagnostic and exits with status 1; what precedes the first failing document is printed, nothing for the failing document and what follows it. It never crashes or hangs.",
 ["inputs", "configurations"], "every list of good, bad, missing and unreadable inputs, as files or on standard input",
 "The command has no tests at all.",
 ["cmd/helium-lint/helium-lint.go"],
 [("input goroutine and result loop", "cmd/helium-lint/helium-lint.go")],
 ["stdout, stderr and exit status of the built binary"])

add("C18", "The XML declaration is read, reported and written back faithfully",
 "For every well-formed XML declaration, in any quoting and blank layout, the document reports exactly the declared version, encoding and standalone setting, tells an absent declaration or pseudo-attribute from an explicit one, and serialises them back. Declarations that are out of order, repeated, incomplete, misspelt, missing blanks or not at the very start of the document are errors.",
 ["inputs"], "every combination and order of pseudo-attributes, quote, blank layout and value, including malformed ones",
 "TestParseXMLDecl holds a few fixed declarations in one layout.",
 ["parserctx.go", "document.go", "dump.go"],
 [("parseXMLDecl", "parserctx.go"), ("dumpDocContent", "dump.go")],
 ["Document.Version/Encoding/Standalone and XMLString"])

add("C19", "Walking a tree visits every node once, in document order",
 "For every tree, parsed or built, walking it calls the visitor exactly once for the start node and each of its descendants, parents before children and siblings in order, and touches nothing outside that subtree; if the visitor fails the walk stops there and returns that error. The content of an element is the concatenation of its descendants' text in that order with references replaced by their entity's replacement text (comments and processing instructions are not part of it), the content of an attribute its value, and reading either does not change the tree.",
 ["inputs", "programs"], "every tree shape and every visitor failure point",
 "No test walks a tree.",
 ["node.go", "reference.go", "entity.go", "attr.go"],
 [("Walk", "node.go"), ("Content", "node.go, text.go, reference.go")],
 ["Walk callback sequence and Content results"])

add("C20", "Every lookup in a document type finds exactly the declaration that is listed",
 "For every document with an internal subset, and for every sequence of operations that builds one, the children of the DTD are the binding declarations (the first one of a name, per kind) in document order, each in its own right: looking up an element by name and prefix, an attribute by name, prefix and element, a general or a parameter entity, in the DTD or through the document, returns that very declaration with its name, replacement text and kind, and nothing for any other name, prefix, element or table, however similar. Each declaration serialises by itself to what it declares; declarations that can't be (wrong content for the type, a second internal subset, a predefined entity, an unknown type) are refused and leave the DTD as it was; declarations rebuilt in another document from SAX events mean the same.",
 ["inputs", "programs"], "every set of declared names, in every order and namespace-like collision, and every sequence of operations on a DTD",
 "The tests look up a single entity at most; nothing declares names that resemble each other.",
 ["dtd.go", "tree.go", "document.go", "valid.go", "dump.go", "parserctx.go"],
 [("AddEntity, AddElementDecl, Lookup*, RegisterAttribute", "dtd.go"), ("addAttributeDecl", "parserctx.go"), ("GetEntity, IsMixedElement, CreateInternalSubset", "document.go")],
 ["DTD children, Lookup* results, GetEntity/GetParameterEntity/IsMixedElement, Dumper.DumpNode of each declaration"])

add("C21", "Every build of the library behaves the same",
 "Built with the debug tag that the README describes, with tracing on or off, or for a 32-bit platform, the library does exactly what the normal build does: it accepts and rejects the same documents with the same errors, builds equal trees, reports the same events in the same order, serialises to the same text, gives the same results for every sequence of tree operations and look-ups, and does not crash where the normal build does not.",
 ["inputs", "configurations"], "every document and every sequence of API calls, in every build",
 "The tests run in one build at a time, and nothing compares the builds.",
 ["parserctx.go", "dump.go", "document.go", "element.go", "node.go", "dtd.go", "parser.go"],
 [("pdebug.Enabled blocks", "parserctx.go"), ("numbers in character references, limits", "parserctx.go")],
 ["Parse, SAX callbacks, XMLString in builds with -tags debug and GOARCH=386"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
