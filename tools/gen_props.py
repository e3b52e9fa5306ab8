#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand; output is committed)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
D = "docx-core/src/"
p("C01", "Enumerated values use their standard token and read back as themselves",
  "Every value of every public enumeration of document attributes (alignment, border, shading, break, tab, style, width, section, grid, orientation, theme colour, field char, numbering suffix, relative position and the like) is written as the token the OOXML standard assigns to it, and parsing that token yields the same value again. A token outside the enumeration always yields the type's fixed fallback value or an error, never any other value.",
  ["inputs"], "all values of all attribute enumerations, all strings",
  "Tests pin a handful of tokens; a single swapped or misspelt token among ~250, or a changed fallback for unknown tokens, passes them.",
  [D+"types/"], [("Display::fmt", D+"types/*.rs"), ("FromStr::from_str", D+"types/*.rs")], ["to_string()", "parse()"])
p("C02", "Caller text reaches the document unchanged and never becomes markup",
  "Whatever string a caller supplies as run text, deleted text, hyperlink target, style id or name, font name, revision author or comment author, the written part stays well-formed and an XML parser recovers exactly that string from the place where it was put, except that carriage returns, characters XML cannot represent and line feeds in run text are dropped and tabs outside run text may read as spaces. Text that was read from a package is again written so that it reads back as the same text.",
  ["inputs"], "all strings",
  "Tests escape two or three fixed strings; they cannot cover all combinations of markup characters, entity look-alikes and positions.",
  [D+"escape/mod.rs", D+"documents/elements/text.rs", D+"documents/elements/delete_text.rs", D+"documents/elements/hyperlink.rs", D+"documents/document_rels.rs", D+"reader/run.rs", D+"xml/writer.rs"],
  [("escape / escape_owned", D+"escape/mod.rs"), ("Text::new / Text::build_to", D+"documents/elements/text.rs"), ("replace_escaped", D+"escape/mod.rs")], ["word/*.xml", "read_docx"])
p("C03", "Every written XML part is well-formed and fully closed",
  "For every document that can be assembled through the builder API, each XML part of the produced package is one well-formed XML document: a single root, every opened element closed in order, no attribute twice on one element. Every element writer, whatever its options and children, returns the output at the nesting level at which it received it.",
  ["inputs", "programs"], "all values of all writable elements with any combination of options and children",
  "Snapshot tests render each element with a few option combinations; an open/close mismatch behind one rarely set option or an empty child list stays unseen.",
  [D+"xml/writer.rs", D+"xml_builder/", D+"documents/elements/", D+"documents/"],
  [("EventWriter element stack", D+"xml/writer.rs"), ("XMLBuilder combinators", D+"xml_builder/mod.rs"), ("BuildXML::build_to", D+"documents/**")], ["every .xml/.rels part of the zip"])
p("C04", "Paragraph ids are unique in the package and stable when already unique",
  "In a built package no two paragraphs anywhere (body, tables, content controls, headers, footers, comments) carry the same paragraph id, and every id the library itself generates is a non-zero hexadecimal number of eight digits below 0x80000000. A paragraph whose id was already unique keeps it, and comment threads still link to the paragraphs of their comments after ids were changed.",
  ["inputs", "programs"], "all documents, including ones that clone or hand-assign paragraph ids",
  "Tests cover one duplicated id per container kind; nesting, containers added later and pre-assigned ids multiply.",
  [D+"documents/mod.rs", D+"documents/document_tree.rs", D+"documents/paragraph_id.rs"],
  [("refresh_duplicate_para_ids family", D+"documents/mod.rs"), ("generate_para_id", D+"documents/paragraph_id.rs")], ["w14:paraId in word/*.xml", "word/commentsExtended.xml"])
p("C05", "Every picture resolves to exactly its own image bytes",
  "For every picture placed anywhere in a document (body, tables, content controls, headers, footers), following its reference through the relationships of the part it is in leads to a media part whose bytes are the bytes the caller supplied. Two pictures with different bytes never share a media part.",
  ["inputs", "programs"], "all documents with any number of pictures in any parts",
  "Tests place one or two images in a few positions; sharing, several parts and nesting depth are unbounded.",
  [D+"documents/image_collector.rs", D+"documents/document_tree.rs", D+"documents/mod.rs", D+"documents/elements/pic.rs", D+"zipper/mod.rs"],
  [("collect_images_*", D+"documents/image_collector.rs"), ("Docx::prepare_for_build", D+"documents/mod.rs")], ["word/media/*", "word/_rels/*.rels"])
p("C06", "A package never refers to something it does not contain",
  "In every produced package each internal relationship target exists as a part, relationship ids are unique within a relationship part, every relationship id used in a part is declared in that part's relationships with the kind its use requires, and every part has exactly one content type. No part name occurs twice.",
  ["inputs", "programs"], "all documents assembled through the builder API",
  "Each optional part (comments, numbering, footnotes, headers, images, custom XML, task panes) is tested alone; their combinations are not.",
  [D+"documents/mod.rs", D+"documents/document_rels.rs", D+"documents/content_types.rs", D+"documents/rels.rs", D+"zipper/mod.rs", D+"documents/xml_docx.rs"],
  [("ContentTypes::add_*", D+"documents/content_types.rs"), ("DocumentRels::build_to", D+"documents/document_rels.rs"), ("prepare_package / build_sparse_relationships", D+"documents/mod.rs")], ["[Content_Types].xml", "_rels/.rels", "word/_rels/*.rels"])
p("C07", "Headers and footers land in their own slot with their own content",
  "A default, first-page or even-page header or footer set on the document or on a section appears in the produced package exactly once, referenced from that section's properties with that kind, and the referenced part holds that header's or footer's content. Setting one kind never changes another, and title-page and even/odd switches are on exactly when such headers or footers exist.",
  ["inputs", "histories"], "all combinations and orders of header/footer calls on document and sections",
  "Tests set one or two kinds in one order; there are six kinds per section, any number of sections and any call order.",
  [D+"documents/mod.rs", D+"documents/elements/section.rs", D+"documents/elements/section_property.rs"],
  [("Docx::header/first_header/even_header/footer/...", D+"documents/mod.rs"), ("Section::header/...", D+"documents/elements/section.rs")], ["word/header*.xml", "word/footer*.xml", "w:sectPr"])
p("C08", "Packing directly and packing after building give the same package",
  "Writing a document straight to a zip archive produces byte for byte the same archive as first building all XML parts in memory and then packing those, for every document. Building and packing the same document again in a fresh process gives the same bytes.",
  ["inputs", "configurations"], "all documents assembled through the builder API",
  "Tests compare the two paths for a few documents; each optional part has its own branch in both paths.",
  [D+"documents/mod.rs", D+"documents/xml_docx.rs", D+"zipper/mod.rs"],
  [("zipper::zip / zip_docx", D+"zipper/mod.rs"), ("Docx::pack / build", D+"documents/mod.rs")], ["zip bytes"])
p("C09", "Numbered paragraphs always find their numbering definitions",
  "Whenever a paragraph with numbering occurs anywhere a caller can place one, the package contains and references the numbering part, and numbering definitions appear there with the ids and levels given. Reading the package gives back the same definitions: numbering ids, abstract definitions, levels and level overrides.",
  ["inputs", "programs"], "all placements of numbered paragraphs and all numbering tables",
  "Tests place a numbered paragraph in one or two containers; containers nest arbitrarily.",
  [D+"documents/mod.rs", D+"documents/elements/", D+"documents/numberings.rs", D+"reader/numberings.rs"],
  [("has_numbering flags", D+"documents/elements/*.rs"), ("Numberings::build_to", D+"documents/numberings.rs")], ["word/numbering.xml", "word/_rels/document.xml.rels"])
p("C10", "Reading arbitrary input never panics or hangs",
  "Given any bytes at all, and in particular any zip archive whose parts are truncated, garbled, or lack, repeat or misspell elements and attributes, the reader returns a document or an error in time bounded by the input size; it never panics and never loops forever.",
  ["inputs"], "all byte strings; all event streams",
  "Tests read well-formed fixtures only.",
  [D+"reader/"],
  [("ElementReader / FromXML implementations", D+"reader/*.rs"), ("EventReader::next_event", D+"reader/xml_parser.rs")], ["read_docx result"])
p("C11", "What was written is read back: structure and formatting survive",
  "Writing a document and reading the result yields the same sequence of paragraphs, runs, text, breaks, tabs, tables, rows, cells, bookmarks, hyperlinks, insertions and deletions with the same nesting, and the same paragraph, run, table, cell and section formatting values for every attribute that both the writer and the reader support. Writing what was read and reading it again changes nothing further.",
  ["inputs", "programs"], "all documents built from elements that both writer and reader support",
  "Tests read a few fixtures and compare snapshots; most attribute values and combinations never round-trip in a test.",
  [D+"reader/", D+"documents/elements/"],
  [("ElementReader implementations", D+"reader/*.rs"), ("BuildXML implementations", D+"documents/elements/*.rs")], ["read_docx(pack(doc))"])
p("C12", "Every comment is written once and stays attached to its range and parent",
  "Every comment attached to a range anywhere in the document appears exactly once in the comments part with its own id, author, date and text, its range markers and reference in the text carry that id, and a reply's thread entry names the paragraph of its parent comment. Reading the package gives every comment its text and the parent it was written with.",
  ["inputs", "programs"], "all documents with any number and nesting of comments and replies",
  "Tests have one or two comments; placement (tables, content controls, insertions), multi-paragraph comments and reply chains multiply.",
  [D+"documents/mod.rs", D+"documents/comments.rs", D+"documents/comments_extended.rs", D+"reader/read_docx.rs", D+"reader/comments.rs"],
  [("store_comments* / push_comment_and_comment_extended", D+"documents/mod.rs"), ("store_comments (reader)", D+"reader/read_docx.rs")], ["word/comments.xml", "word/commentsExtended.xml"])
p("C13", "Builder calls change what they name and nothing else",
  "Every builder method of paragraphs, runs, tables, rows, cells, sections, styles, numbering levels, the document and their property groups changes exactly the setting, group of settings or child it names to the value given (an outline level above nine becomes nine; single and double strike-through exclude each other; a first-page header or footer turns on the first-page setting) and leaves every other setting and child as it was. Methods that add content append it after everything added before. The outcome of calls that name different settings does not depend on their order.",
  ["inputs", "histories"], "all sequences of builder calls with all argument values",
  "Tests call each setter once on a default value; a setter that clobbers a neighbour or drops earlier children under some condition passes.",
  [D+"documents/elements/"],
  [("builder methods", D+"documents/elements/*.rs")], ["public fields", "built XML"])
p("C14", "Table-of-contents instructions survive printing and parsing",
  "Every combination of table-of-contents switches a caller can set (values without quotation marks or spelled-out XML references, style names without commas, entry identifiers not empty) is printed as a field instruction that parses back to the same switches. Parsing an arbitrary instruction never panics, and printing the parse of a printed instruction reproduces it.",
  ["inputs"], "all combinations of switches with all legal values; all instruction strings",
  "Tests parse a dozen fixed instructions; switch combinations are exponential.",
  [D+"documents/elements/instr_toc.rs", D+"documents/elements/table_of_contents.rs"],
  [("InstrToC::from_str / build_to", D+"documents/elements/instr_toc.rs")], ["w:instrText"])
p("C15", "Custom data survives: custom XML items, document variables and properties",
  "A custom XML item added to a document (each element holding either text or child elements, nested less than 200 deep) is written so that an XML parser sees the same elements, attributes and text as in the caller's string, up to white space around text, and an item that is not well formed is refused with an error. Every item has its own store id and properties part, and custom properties and document variables (values without tabs and carriage returns) are written with the keys and values given. Reading the package gives the same custom properties.",
  ["inputs"], "all custom XML trees, property keys and values",
  "Tests use one flat item and one key without special characters.",
  [D+"documents/custom_item.rs", D+"xml_json/mod.rs", D+"documents/doc_props/", D+"documents/settings.rs", D+"documents/content_types.rs"],
  [("XmlDocument::from_str / Display", D+"xml_json/mod.rs"), ("CustomItem*", D+"documents/custom_item*.rs"), ("CustomProps", D+"documents/doc_props/custom.rs")], ["customXml/*", "docProps/custom.xml"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
