"""Writes MANIFEST.json from the list below and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOIN = "dataflow over compiler IR: writer table joined with reader table"
STATE = "dataflow over MIR: the final state of each operation as a value graph, compared with the specified final state"
CHECKS = {
    "C01": (JOIN, "Decides, for every footprint value at once, that each field read back is the field written, by joining the extracted writer and reader tables; values outside the format and the dependency's tokeniser are assumed."),
    "C02": (JOIN, "As C01 for all board types and the embedded footprints."),
    "C05": (JOIN, "As C01 for the library table; the expansion's argument is the entry's own location field."),
    "C13": (STATE, "The final board of the rename, as a value of the starting board and the two names, is compared field by field with the required one, for every board at once."),
    "C14": (STATE, "The final state of every translation is compared field by field with the required one, for every value and offset at once; floating point addition is treated as exact."),
    "C21": ("dataflow over MIR: equality results as conditions over attributes, compared with the conjunction of attribute equalities", "The condition under which each equality answers true is computed for every pair of values at once and compared with attribute-wise equality minus the documented exceptions; NaN is excluded."),
    "C16": (STATE, "The final state of every flip and rotation is compared field by field with the required one, for every value at once; floating point arithmetic is treated as exact."),
}
LOOK = "dataflow over MIR: results and final states of lookups and edits as value graphs, compared with the specified ones"
CHECKS.update({
    "C19": (LOOK, "Result and final state of each of 41 lookups, collecting operations and targeted edits are compared, for every document and name at once, with first-match / all-in-order / change-only-that-item values."),
    "C20": (LOOK, "The fields after each edit, the number chosen for a new field and the answer given are compared with the required ones for every component at once."),
    "C23": (LOOK, "The path opened for a sheet and the collected components are compared with the required values, with loading a file left uninterpreted; the file system itself is assumed not to change meanwhile."),
})
LINE = "dataflow over MIR: printed text as a line template composed with the parser's loop transition tables"
CHECKS.update({
    "C03": (LINE, "What the schematic parser makes of each printed line is compared, attribute by attribute and for every document at once, with the value printed; repeated groups by induction over one generic round; strings are assumed to be free of quotes and line breaks and unquoted words non-empty and space-free."),
    "C04": (LINE, "As C03 for symbol libraries: aliases, fields, pins, rectangles and unrecognised drawing lines."),
})
CHECKS.update({
    "C24": ("dataflow over MIR: keyword decision tables of readers joined with the printers' spellings", "For every enumerated type and for every token a reading function compares with constants: spellings are distinct, read as the value written with them, and every other spelling is rejected or kept; one-letter tokens are judged by their first letter, tokens inside repetitions of whole-file functions by the functions that read one line."),
})
CHECKS.update({
    "C22": ("effect analysis over the whole call graph (calls, function values, closures, method tables) from every reader and printer, with a classification of every operation outside the analysed code",
            "Decides the whole property relative to the classification of standard-library operations."),
})
CHECKS.update({
    "C10": ("typestate analysis of every Result-typed value in every function over the compiler's MIR; dataflow summaries of the file functions compared with the required ones",
            "Whether every failure of a call is turned into a returned error, at every call site; what is written and read by the file functions. Which error is returned is not compared."),
    "C11": ("gated dataflow summary of the file-kind dispatch compared with a specified decision table for all combinations of accepting parsers and expected kinds",
            "Whole property except that errors are compared by presence, not by content."),
})
CHECKS.update({
    "C08": ("dataflow over MIR: every aborting operation (index, slice, unwrap, arithmetic, panic) of every reader and printer with the condition under which it is reached, decided from the guards on the way",
            "All readers and printers of the crate with the library parser underneath summarised by contracts; stack exhaustion by deeply nested input and running out of memory are outside."),
})
CHECKS.update({
    "C09": ("dataflow over MIR: for every loop of every reader a walked list or a bounded measure that each round moves (ranking argument on the loop's transition table); call-graph acyclicity",
            "All readers of the crate; the S-expression tokenizer of the library underneath is taken to terminate."),
})
CHECKS.update({
    "C12": ("dataflow over MIR: every byte the formatter's operations write with its condition, for every state of the formatter",
            "Whole property relative to the serializer of the library underneath, which writes the atoms."),
})
CHECKS.update({
    "C06": ("dataflow over MIR: from the summary of every S-expression reader (condition of success, value) every list is closed or walked to its end and every piece read is in the value or fixed by the condition",
            "All S-expression readers of the crate, the library's cursor operations summarised by contracts; text after the first S-expression of a file is outside."),
})
CHECKS.update({
    "C18": ("dataflow over MIR: every finding a check hands out with the condition under which it does, compared with a table of rule conditions for every item, and every nested list of findings handed on",
            "Section, rule and condition of every finding of footprints, symbols, fields, pins and rectangles; wording of messages and names in them are not compared."),
})
CHECKS.update({
    "C17": ("dataflow over MIR: the value of a footprint after the fix for every combination of present texts, the check's findings on it, the value after a second fix, and the pieces that have to be as they were",
            "Whole property for footprints whose first reference, value and user text come in this order; the other elements, before and after them, are arbitrary. Geometry of an added courtyard is not judged."),
})
CHECKS.update({
    "C15": ("dataflow over MIR: the box of every kind of element and of documents of two elements as a value over the coordinates, every defining point between its sides by sign conditions on linear forms; the combining operation for any two boxes",
            "Every kind of element with arbitrary coordinates, quarter turns of pads, documents of exactly two elements (every kind next to a line or segment, both orders); longer documents are not analysed, only the operation that combines two boxes. Rounding is not modelled, text extents and the bulge of arcs are outside."),
})
CHECKS.update({
    "C07": ("dataflow over MIR: every column that success of a line reader allows is in its value or fixed by the condition of success (one further column stands for all), every round over lines stores something, no line is passed without a look, the text is read to its end",
            "All functions that take lines of schematics and symbol libraries apart, any number of columns and lines. Letters behind the first of one-letter columns, repeated lines of one kind and words behind the closing line are outside; six drops are listed as known findings."),
})
NA = {}

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [
        {"property": p, "quick_cmd": "python3 engine/check.py %s" % p, "thorough_cmd": "python3 engine/check.py %s" % p,
         "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": n}
        for p, (t, n) in sorted(CHECKS.items())],
    "not_applicable": [{"property": p, "reason": NA.get(p, "no static rule for it has been built yet")} for p in props if p not in CHECKS],
    "notes": "All checks read the compiler's intermediate representation of /repo's current tree; nothing of /repo is executed.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
