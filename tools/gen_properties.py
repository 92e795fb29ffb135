#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

FP = ["src/footprint/de.rs", "src/footprint/ser.rs", "src/footprint/data.rs"]
LY = ["src/layout/de.rs", "src/layout/ser.rs", "src/layout/data.rs"]

p("C01", "Footprints survive being written and read back",
  "Writing any footprint (alone or embedded in a board) and reading the result back yields a footprint equal in every attribute: name, layer, lock/place state, timestamps, texts, lines, circles, arcs, polygons, pads with all their optional settings, 3D models and every unrecognised element, in the same order. "
  "Optional attributes are left out of the file only when the reader supplies exactly the omitted value, and no attribute is moved into another one.",
  ["inputs"], "every footprint value a reader can produce or a program can build from values the format can hold: every element kind, every combination of optional attributes, lists of every length",
  "The tests round-trip a handful of sample files that use few of the optional attributes; a swapped field, a guard that omits a non-default value or a dropped optional attribute in an element the samples do not contain goes unnoticed.",
  FP, [("footprint serialiser (value to S-expression)", "src/footprint/ser.rs"), ("footprint reader (S-expression to value)", "src/footprint/de.rs")],
  observe=["footprint::parse", "footprint::module_to_string", "read_module", "write_module"])

p("C02", "Boards survive being written and read back",
  "Writing any board and reading the result back yields a board equal in every attribute: version, host, general section, page, layer table, setup and plot parameters, nets, net classes, graphics, dimensions, tracks, vias, zones (outline, filled areas, clearances, keep-out rules), embedded footprints and every unrecognised element, in the same order. "
  "Optional attributes are left out of the file only when the reader supplies exactly the omitted value, and no attribute is moved into another one.",
  ["inputs"], "every board value a reader can produce or a program can build from values the format can hold: every element kind, every combination of optional attributes, lists of every length",
  "The tests round-trip a few sample boards; most optional settings, zone attributes and setup entries never differ from their defaults in them.",
  LY + ["src/footprint/de.rs", "src/footprint/ser.rs"], [("board serialiser", "src/layout/ser.rs"), ("board reader", "src/layout/de.rs")],
  observe=["layout::parse", "layout::layout_to_string", "read_layout", "write_layout"])

p("C03", "Schematics survive being written and read back",
  "Printing any schematic and parsing the text back yields a schematic equal in every attribute: libraries, layer line, page description, components with position, unit, paths, fields and orientation, wires, junctions, no-connects, texts, labels, sheets with their labels, and every unrecognised line, each list in the same order.",
  ["inputs"], "every schematic built from values the line-based format can hold (texts without line breaks or double quotes, names without blanks), every list length",
  "The tests parse small documents and never compare the attributes of a re-read schematic; most element kinds and flags (italic, bold, visibility, label shapes) are never printed with a non-default value.",
  ["src/schematic.rs", "src/lib.rs"], [("schematic printer", "src/schematic.rs: Display impls"), ("schematic parser", "src/schematic.rs: parse")],
  observe=["schematic::parse_str", "schematic::parse", "ToString of Schematic"])

p("C04", "Symbol libraries survive being written and read back",
  "Printing any symbol library and parsing the text back yields a library equal in every attribute: every symbol with its settings, fields (number, text, position, size, orientation, visibility, justification, italic, bold, name), aliases, pins (all electrical types, shapes and visibility), rectangles and every unrecognised drawing line, each list in the same order.",
  ["inputs"], "every symbol library built from values the line-based format can hold (texts without line breaks or double quotes, names without blanks), every list length",
  "The tests parse sample libraries that exercise few pin shapes and never bold or italic fields, so wrong letters or swapped columns in the printer or parser survive.",
  ["src/symbol_lib.rs", "src/lib.rs"], [("symbol printer", "src/symbol_lib.rs: Display impls"), ("symbol parser", "src/symbol_lib.rs: parse_symbol")],
  observe=["symbol_lib::parse_str", "ToString of SymbolLib"])

p("C05", "Footprint library tables survive being written and read back",
  "Writing any footprint library table and reading the result back yields the same entries in the same order, with name, type, location, options and description each unchanged; looking up an entry's expanded location starts from that entry's own location text.",
  ["inputs"], "every table, every number of entries, every text in each column",
  "There is one sample table whose entries share type and options, so mixing up columns is not visible.",
  ["src/fp_lib_table.rs"], [("table serialiser and reader", "src/fp_lib_table.rs")],
  observe=["fp_lib_table::parse", "fp_lib_table::to_string", "read_fp_lib_table"])

p("C06", "Reading footprints, boards and tables never silently drops content",
  "When a footprint, board or library-table file contains something extra in any list (an additional atom or sub-list, a repeated or unexpected entry), reading either fails with an error or the extra content is represented in the value that is returned. "
  "It is never accepted and then forgotten, because the next save would destroy it.",
  ["inputs"], "every list of the format at every nesting level, every kind of extra content",
  "Sample files only contain what the reader already knows; nothing in the tests adds content at each nesting level.",
  ["src/footprint/de.rs", "src/layout/de.rs", "src/fp_lib_table.rs"], [("S-expression readers", "src/footprint/de.rs, src/layout/de.rs, src/fp_lib_table.rs")])

p("C07", "Reading schematics and symbol libraries never silently drops content",
  "When a line of a schematic or symbol library carries extra columns or an unknown keyword, or when an unknown line appears in a section, reading either fails with an error or the content is represented in the value that is returned.",
  ["inputs"], "every line kind of both formats, every extra column, every unknown line",
  "Samples contain only known lines with the expected number of columns.",
  ["src/schematic.rs", "src/symbol_lib.rs", "src/lib.rs"], [("line parsers", "src/schematic.rs, src/symbol_lib.rs"), ("column splitter", "src/lib.rs")])

p("C08", "No input makes a reader or printer panic",
  "For every text (empty, truncated, malformed, with empty lists, blank lines, short columns or non-ASCII characters) every reader returns a value or an error, and every value a reader returns can be printed; neither ever aborts with a panic.",
  ["inputs"], "every text handed to each reader of the library, every value they return",
  "Tests only feed well-formed samples; a panic needs a specific truncation or malformed column.",
  ["src/lib.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/footprint/de.rs", "src/layout/de.rs", "src/formatter.rs", "src/project.rs", "src/fp_lib_table.rs"],
  [("indexing, slicing, unwrapping and arithmetic in readers", "all reader modules")])

p("C09", "Reading always terminates",
  "Every reader finishes for every text: each repetition either consumes a piece of its finite input on every round or stops at the end of the input.",
  ["inputs"], "every text, in particular truncated sections without their end marker",
  "A non-terminating parse needs a missing end marker or an unhandled line; the samples are complete and a hanging test would only be seen for the exact input.",
  ["src/schematic.rs", "src/symbol_lib.rs", "src/lib.rs", "src/footprint/de.rs", "src/layout/de.rs"], [("parser loops", "src/schematic.rs, src/symbol_lib.rs")])

p("C10", "Failures are always reported to the caller",
  "When opening, reading, creating or writing a file fails, or when a parser rejects its input or a nested sheet cannot be loaded, the operation that was called returns an error: no failure is swallowed, replaced by a default value or an empty result, and success is returned only after the complete data was handed to the operating system.",
  ["fault_sequences", "inputs"], "every fallible step inside every public operation, any of them failing",
  "Tests run on a healthy file system with valid files; no fault is ever injected.",
  ["src/util.rs", "src/lib.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/footprint/mod.rs", "src/layout/mod.rs", "src/error.rs"],
  [("file helpers", "src/util.rs"), ("error propagation", "src/lib.rs, src/schematic.rs")])

p("C11", "A file is identified as exactly the kind that it is",
  "Reading a file of unknown kind returns the kind whose parser accepts the contents, carrying what that parser produced from the whole file, and 'unknown' with the file's path only when every supported parser rejected it. "
  "Asking for a particular kind returns that kind or an error, never another kind; if the file is not of that kind because its parser rejects it and no other parser tried before accepts it, the error is that parser's own.",
  ["inputs"], "every file content, every requested kind",
  "Tests read one good file per kind; wrong-kind and malformed files, and the error that is returned for them, are not covered.",
  ["src/lib.rs"], [("kind dispatch", "src/lib.rs: read_kicad_file and the typed readers")])

p("C12", "Pretty-printing adds only whitespace",
  "The text layout of footprints, boards and library tables adds only blanks and line breaks between the tokens of the data: every opening and closing parenthesis is written exactly once, every two neighbouring tokens stay separated, nothing else is written, and nesting or element names never change the data.",
  ["inputs"], "every nesting of element names, every indentation level, including names unknown to the formatter",
  "Tests compare a few formatted samples; a missing separator or parenthesis for one element name in one parent is not covered.",
  ["src/formatter.rs"], [("pretty printer", "src/formatter.rs")])

p("C13", "Renaming a net reaches every place that names it and nothing else",
  "After renaming a net on a board, every place that carries the old name (net list, net class members, zones, pads of embedded footprints) carries the new name, the old name occurs nowhere among them, and every other name and every other attribute is unchanged.",
  ["inputs"], "every board, every pair of names, nets used in any number of places",
  "No test renames a net on a board that uses it in all places at once.",
  ["src/layout/data.rs", "src/footprint/data.rs"], [("net rename", "src/layout/data.rs, src/footprint/data.rs")])

p("C14", "Moving a board or element shifts every coordinate exactly once",
  "Adjusting the location of a board by an offset adds exactly that offset to every absolute X and Y coordinate of every movable element (footprints, texts, lines, arcs, circles, dimensions with all their parts, segments, vias, zones including filled areas) exactly once, and changes nothing else such as sizes, angles, widths, names or coordinates relative to a footprint.",
  ["inputs"], "every board, every offset",
  "No test compares all coordinates of all element kinds after a move.",
  ["src/layout/data.rs", "src/footprint/data.rs"], [("translation", "src/layout/data.rs, src/footprint/data.rs: Adjust impls")])

p("C15", "Bounding boxes enclose what they bound",
  "The bounding box of a footprint, board, schematic or any single element has its smaller corner not greater than its larger corner and contains the defining points of every bounded element it covers; combining boxes never shrinks or loses one.",
  ["inputs"], "every element with finite coordinates, in every drawing direction and rotation",
  "Tests check pads and one sample footprint; lines drawn right-to-left or bottom-to-top, circles and arcs are not covered.",
  ["src/lib.rs", "src/footprint/data.rs", "src/layout/data.rs", "src/schematic.rs"], [("box combination", "src/lib.rs: Bound"), ("bounding boxes", "src/footprint/data.rs, src/layout/data.rs, src/schematic.rs")])

p("C16", "Flipping a footprint mirrors everything and twice is the identity",
  "Flipping a footprint to the other side moves the footprint and every text, line, arc, circle, polygon and pad in it to the opposite side and mirrors every position, leaving names, sizes, nets and drawing order untouched; flipping twice gives back the original. "
  "Rotating a footprint changes exactly the angles of its own placement, its texts and its pads, and keeps them between 0 and 360 degrees.",
  ["inputs"], "every footprint on either side, with every element kind and layer",
  "No test flips or rotates a footprint containing every element kind.",
  ["src/footprint/data.rs"], [("flip and rotate", "src/footprint/data.rs: Flip, Rotate impls")])

p("C17", "Applying the library-convention fix removes the complaints it addresses",
  "After applying the automatic fix to a footprint, checking it again no longer reports the problems the fix addresses (reference and value text content, layer, visibility and font; the second reference; the placement attribute of SMD parts; the courtyard), applying the fix again changes nothing, and attributes that violate no rule are left as they were.",
  ["inputs", "configurations"], "every footprint, every configured font size and thickness",
  "Nothing in the tests runs the check after the fix.",
  ["src/footprint/data.rs", "src/checkfix.rs"], [("check and fix", "src/footprint/data.rs: CheckFix for Module")])

p("C18", "The convention check reports exactly the violated rules",
  "Checking a footprint or symbol reports an item for a rule if and only if that rule's condition is violated, for every text, field, pin and rectangle separately, labelled with the rule's section and number; a finding on one item never hides another, and nested findings are all delivered.",
  ["inputs", "configurations"], "every footprint and symbol, every combination of simultaneous violations, every configuration",
  "Two unit tests cover the allowed-character rule only.",
  ["src/checkfix.rs", "src/footprint/data.rs", "src/symbol_lib.rs"], [("convention checks", "src/footprint/data.rs, src/symbol_lib.rs, src/checkfix.rs")])

p("C19", "Lookups and targeted edits hit exactly the named item",
  "Looking up a component, field, symbol, footprint, layer, net, net class or zone by name, number or predicate returns an item that satisfies the request whenever one exists (the first in file order) and a not-found answer otherwise; an edit addressed to one named item changes that item only, and collecting operations return every item of the requested kind once and in order.",
  ["inputs"], "every document, every name, with zero, one or several matching items",
  "Tests look up a few existing names; missing names, several matches and untouched neighbours are not checked.",
  ["src/schematic.rs", "src/symbol_lib.rs", "src/footprint/data.rs", "src/layout/data.rs"], [("lookups", "src/schematic.rs, src/symbol_lib.rs, src/footprint/data.rs, src/layout/data.rs")])

p("C20", "Component fields stay consistent under edits",
  "Changing a component's reference or name changes the corresponding numbered field with it and no other field's text; setting a named field updates the existing field or adds one with an unused number above all others, and the returned answer tells truthfully whether it was new, changed (with the previous text) or the same.",
  ["inputs", "histories"], "every component with any set of fields, every sequence of edits",
  "Tests do not edit components with several fields or compare the answer with the effect.",
  ["src/schematic.rs", "src/symbol_lib.rs"], [("field editing", "src/schematic.rs: Component")])

p("C21", "Footprints compare equal exactly when they hold the same data",
  "Two footprint elements, nets or net classes compare as equal exactly when every stored attribute is equal. "
  "The only attributes left out on purpose are what placement on a board changes: the side of a layer, the net of a pad, and everything but the kind of two reference texts or two value texts; the net-class comparison that ignores nets ignores nothing else.",
  ["inputs"], "every pair of values of every comparable kind",
  "Tests compare a value with itself or with its re-read copy only, so an attribute left out of the comparison is invisible.",
  ["src/footprint/data.rs", "src/layout/data.rs"], [("equality", "src/footprint/data.rs, src/layout/data.rs: PartialEq")])

p("C22", "Parsing and printing depend only on their input",
  "Parsing a text or printing a value gives the same result every time: it neither reads nor changes files, environment, clock, randomness or global state, does not write to standard output, and does not depend on hash ordering.",
  ["histories", "configurations"], "every call, in every environment and after every history of earlier calls",
  "A test run sees one environment and one order of calls.",
  ["src/lib.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/footprint/mod.rs", "src/layout/mod.rs", "src/fp_lib_table.rs", "src/project.rs", "src/formatter.rs"],
  [("all pure entry points", "src/*")])

p("C23", "Nested sheets are found next to their parent and fully collected",
  "Loading a sheet opens exactly the file named by the sheet relative to the directory of the schematic that contains it (at every nesting depth relative to the immediate parent); collecting all components returns those of the schematic followed by those of every sheet in order, each exactly once, and fails if any sheet cannot be loaded.",
  ["inputs", "fault_sequences"], "every tree of schematics and sheets, any sheet missing or malformed",
  "Tests use single-sheet schematics.",
  ["src/schematic.rs"], [("sheet loading", "src/schematic.rs: all_components, parse_file_for_sheet, filename_for_sheet")])

p("C24", "Every keyword is read and written with one spelling",
  "For each enumerated attribute (pad kind and shape, layer side and kind, justification, orientation, label form and side, text kind, wire kind, pin kind, shape and orientation, fill styles, flags) different values are written with different spellings, reading a spelling gives the value that is written with it, and a spelling that belongs to no value is rejected instead of being taken for one.",
  ["inputs"], "every value of every enumerated attribute, every spelling",
  "Samples use a few of the spellings; a duplicate or swapped spelling for a rare value, or a catch-all, is invisible.",
  ["src/footprint/data.rs", "src/footprint/de.rs", "src/footprint/ser.rs", "src/layout/de.rs", "src/layout/data.rs", "src/schematic.rs", "src/symbol_lib.rs"],
  [("keyword tables", "reader and printer of each enumerated type")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
