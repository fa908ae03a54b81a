#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, technique=technique, note=note))


G = "src/parser/base/grammar.rs"
M = "src/parser/mod.rs"
B = "src/parser/base/mod.rs"
D = "src/parser/base/directive.rs"

p("C01", "Parsing any input terminates with a result, in bounded work",
  "For every byte string, parsing it (in direct or cyclic mode, or through the deserializer) returns nodes or an error: it never panics, overflows the stack, loops or aborts, and the error can be displayed. "
  "The work done grows no faster than the square of the input length, for nesting of any depth and for any number of keys, anchors and documents, and only linearly when lines, items or documents that do not nest into each other are repeated. "
  "Parsing the same input again gives the same result.",
  ["inputs"], "all byte strings, UTF-8 or not; the work bound counts executed basic-block edges",
  "The tests parse some forty hand-written documents, nearly all of them well-formed and small; nothing feeds mutated, truncated, deeply nested or binary input.",
  [M, B, G, D, "src/parser/error.rs"],
  [("depth limit and cursor of the parser", B), ("scalar, flow and block rules", G), ("entry points", M)],
  "coverage-guided fuzzing and structured generation with an edge-count budget",
  "Generated inputs only: random bytes, token soup, mutations of rendered documents, nesting towers, and guided mutation of the most promising tapes. Each case runs with a limit on executed edges and in a process whose death is a violation.")

p("C02", "A document parses to exactly the tree its indentation and brackets describe",
  "Parsing a document written from a tree of block and flow collections yields the same tree: the same items and entries in the same order with the same keys and values, where a repeated key keeps the later value. "
  "This holds for every legal indentation width, for compact nested items, explicit `? ` keys, empty values, flow collections over several lines, comments and blank lines anywhere they are allowed, and with LF, CRLF or CR line ends.",
  ["inputs"], "all trees of collections and scalars (depth up to 6 by default) in all layouts of the supported subset of YAML 1.2",
  "The tests fix about forty layouts; a defect needs a combination (a compact item holding a dedented key behind a comment) that none of them has.",
  [G, B, M], [("block and flow collection rules", G), ("indentation stack, gaps between lines", B)],
  "generation of trees with randomized layout, compared with the tree (render/parse round trip)",
  "Every generated tree is rendered by an independent renderer that varies all layout choices; unsupported YAML features named in DESIGN.md are outside the domain.")

p("C03", "Plain scalars resolve to the type the core schema gives them",
  "A plain scalar becomes null, a boolean, an integer, a float or a string exactly as its whole text matches the documented forms, wherever it stands: root, item, key, value, block or flow. "
  "The value read back through the integer, float, boolean and null accessors is the value the text denotes, for decimal, octal, hexadecimal and scientific forms and the special floats; quoted and block scalars are never resolved, and a tag or an anchor on the scalar changes nothing about it.",
  ["inputs"], "all plain scalar texts, in every position",
  "The tests look at a dozen number texts; resolution is a property of the whole grammar of texts, including near misses such as 0xg, 1.2.3 or 12-3.",
  [G, M, "src/yaml.rs", "src/node.rs"], [("number and constant rules", G), ("scalar resolution", M), ("accessors", "src/node.rs")],
  "grammar-based and near-miss generation against an independent resolver",
  "The resolver in model.rs is written from the documentation; texts outside the parser's plain character set are covered by C18 and C04.")

p("C04", "Quoted, plain multi-line and block strings have the content YAML gives them",
  "A string written in any style (plain over several lines, single-quoted, double-quoted with escapes, literal or folded with each chomping indicator) parses to the content defined for that style: escapes replaced, folded lines joined, indentation removed, final line breaks clipped, stripped or kept. "
  "The characters of the content, including tabs, quotes, comment signs, indicators and non-ASCII characters, never change, in every position of the document.",
  ["inputs"], "all string contents a style can carry, in all positions and indentations",
  "The tests contain about ten strings; the style rules quantify over all contents, line structures and indentations.",
  [G, B], [("quoted, plain and wrapped string rules", G), ("line breaks and indentation", B)],
  "generation of line structures, rendered in each style, against a folding/chomping model",
  "Indentation indicators of block scalars (`|2`), which the parser does not support, are outside the domain. Folding follows the behaviour the repository's tests fix.")

p("C05", "Anchors and aliases refer to the nodes they name",
  "In direct mode an alias stands for the node of the same document that was given that anchor, shares it instead of copying it, and an alias to an anchor whose node is not complete before it is an error. "
  "In cyclic mode aliases stay aliases, before, inside and behind their node, and looking one up in the document's table gives that node, or the alias's position if there is none. An alias has the tag of the node it names. "
  "In both modes the table of a document holds exactly its anchored nodes, an anchor defined twice in a document is an error, and anchors never reach from one document into another.",
  ["inputs", "histories"], "all documents with anchors and aliases in all positions, including repeated definition, self reference and several documents",
  "The tests use three anchors; repeated definition, nesting and document boundaries are not sampled.",
  [M, G, "src/node.rs", "src/repr.rs"], [("anchor tables and alias resolution", M), ("anchor and alias rules", G), ("as_anchor", "src/node.rs")],
  "generation of documents with anchors; history model of the anchor table",
  "Sharing is observed by pointer identity of the parsed nodes.")

p("C06", "Tags are attached to the node they are written on and expand by the directives",
  "The tag of a parsed node is the expansion of the tag written on it: verbatim tags literally, the primary, secondary and named handles by the prefixes in force, and nothing else; a node without a tag reports the core-schema tag of its value. "
  "Directives stand before the first document and are in force for the whole stream; an undefined handle, a malformed tag, a second tag, a second or unsupported version, a malformed directive and directives without a document mark behind them are rejected.",
  ["inputs", "histories"], "all tags on all positions, all lists of directives and documents",
  "The tests have four tags and one directive block.",
  [D, M, G], [("directives", D), ("tag rules", G), ("default tags", "src/node.rs")],
  "generation of tagged documents and directive histories against a handle-table model",
  "Tag characters are those of the YAML tag production; what a rejected directive's message says is not fixed.")

p("C07", "A stream yields one node per document, each independent of the others",
  "Parsing a stream of documents separated by `---` or ended by `...` gives as many nodes as there are documents, in order, each equal to what the document gives on its own. "
  "Markers within strings, comments or indented content start no document; an empty document is null.",
  ["inputs", "histories"], "all sequences of documents with all combinations of markers, comments and directives between them",
  "The tests have two streams of two documents.",
  [M, G, B], [("document loop", M), ("document marks", B)],
  "metamorphic: concatenation of generated documents against their separate parses",
  "Bare documents behind `...` (without `---`) are not supported by the parser and are outside the domain.")

p("C08", "Positions of nodes and errors are positions in the input",
  "The position of every parsed node lies where that node is written: for scalars and flow collections at its first character behind its tag and anchor, for block collections within its extent, and a document's positions are those of the whole input. "
  "A parser error names the fault and points at it: its position lies within the input at the fault, and its displayed line, column (in bytes) and excerpt are those of that position. "
  "The message functions show the line, column and excerpt of any position of any bytes, and of the end for a position behind it.",
  ["inputs"], "all well-formed documents for nodes, all rejected inputs for errors; any mix of line ends and multi-byte characters",
  "The tests assert two positions and one error text.",
  [B, M, "src/parser/error.rs", "src/node.rs", "src/indicator.rs"], [("indicator", "src/indicator.rs"), ("error display", "src/parser/error.rs"), ("positions of nodes", M)],
  "generation with recorded positions; error positions recomputed from the displayed text",
  "Positions are byte offsets; where a block collection's position may lie is given as a range.")

p("C09", "The layout and style of a document do not change its data",
  "Two documents that write the same tree in different styles (block or flow, quoting, indentation, compact or not, explicit or implicit keys) parse to equal nodes with equal hashes. "
  "Adding comments, blank lines, trailing spaces, a byte of final line break, or a leading document mark, or changing LF into CRLF or CR, changes no value of a document.",
  ["inputs"], "all pairs of layouts of the same tree, all such edits of any accepted document",
  "No test parses two layouts and compares them.",
  [G, B, M, "src/yaml.rs"], [("gaps, comments and line breaks", B), ("collection rules", G)],
  "metamorphic: two renderings of one tree, and layout edits of rendered text, parsed and compared",
  "The edits are applied where YAML gives them no meaning (comments not inside scalars).")

p("C10", "Dumping nodes gives YAML that parses back to the same nodes",
  "For every list of nodes, the dumped text parses to as many documents with the same values, types, tags, anchors and aliases, in the same order; dumping the result again gives the same text. "
  "This holds for every string content, number text, nesting, empty or complex key, and for parsed documents in both modes.",
  ["inputs"], "all node trees with tags, anchors and aliases that YAML can write; all parsed documents",
  "The tests dump three documents; the strings that need quoting or a literal block are unbounded.",
  ["src/dumper.rs", G, M], [("dumper", "src/dumper.rs"), ("dump_anchors", "src/dumper.rs")],
  "round-trip generation: random node trees, adversarial strings, parsed documents; dump-parse-dump fixpoint",
  "Tags with spaces or angle brackets, aliases with tags, and number nodes holding other text are not writable and outside the domain.")

p("C11", "Data serialized with serde deserializes to the same data",
  "For every value of any type made of the serde data model, serializing to a node or to text and deserializing gives an equal value, and the YAML data in between is the usual image of the value (structs and maps as maps, sequences and tuples as sequences, variants as names or single-entry maps). "
  "Nodes themselves serialize and deserialize to equal nodes, and deserializing text sees what parsing sees, document by document with aliases written out.",
  ["inputs"], "all compositions of serde types and all their values",
  "The tests round-trip four derived types with one value each.",
  ["src/serde/de.rs", "src/serde/ser.rs", "src/serde/ser_node.rs", "src/serde/mod.rs"],
  [("serializer", "src/serde/ser.rs"), ("deserializer", "src/serde/de.rs"), ("serde of nodes", "src/serde/ser_node.rs")],
  "round-trip generation over random types and values, against a model of the serde data model",
  "Random types drive the same serializer and deserializer calls as derived code; a second target uses derived types with flatten, tagged and untagged attributes.")

p("C12", "Deserializing data of another shape fails, with the position, and never panics",
  "Deserializing a document into a type it does not fit returns an error, never a wrong value: a node of the wrong kind, an integer out of the range of its type, a missing field, an unknown variant, a missing element, or an alias. "
  "The error of a node of the wrong kind or range carries the position of that node in the input; extra fields are ignored unless the type denies them. "
  "Text that does not parse gives an error too.",
  ["inputs"], "all pairs of type and document that differ in one place or more",
  "The tests contain a handful of mismatches; which pairs of type and kind are accepted is a table nobody enumerates.",
  ["src/serde/de.rs", "src/serde/error.rs", "src/node.rs"], [("deserializer", "src/serde/de.rs"), ("error", "src/serde/error.rs")],
  "mutation of fitting documents against an acceptance table of type and node kind",
  "The acceptance table is the documented lenient one (strings accept any scalar, floats accept integers, single digits are characters).")

p("C13", "The Stringify, InlineList and Optional helpers keep what the user wrote",
  "The string helper accepts exactly strings, booleans, integers and floats in its ranges, keeps the kind, displays the value, and serializes back to it. "
  "The list helper turns a sequence into that list and a single value into a list of one, tells the two apart, and iterates, counts and serializes accordingly. "
  "The optional helper turns booleans into present or absent and any other value into itself, and every accessor agrees with that.",
  ["inputs"], "all scalars and sequences, all element types",
  "The tests use one document per helper.",
  ["src/serde/stringify.rs", "src/serde/inline_list.rs", "src/serde/optional.rs"],
  [("Stringify", "src/serde/stringify.rs"), ("InlineList", "src/serde/inline_list.rs"), ("Optional", "src/serde/optional.rs")],
  "generation of values and documents against a model of each helper",
  "Stringify holds i32 and f32 by its type; values outside are expected to be rejected or rounded as its type says.")

p("C14", "Node equality and hashing are by value and consistent",
  "Nodes are equal exactly when their data is: positions, tags and the texts of equal numbers make no difference, kinds, values and order do. "
  "Equality is reflexive, symmetric and transitive (not-a-number equals itself), equal nodes have equal hashes, so sets and maps of nodes find every equal key.",
  ["inputs"], "all pairs and triples of nodes",
  "The tests compare a few parsed nodes with literals.",
  ["src/yaml.rs", "src/node.rs"], [("Eq and Hash of Yaml", "src/yaml.rs"), ("Eq and Hash of Node", "src/node.rs")],
  "generation of node pairs (rewritten, mutated, unrelated) against model equality; hash-map histories",
  "Number values are read by the model's own parsers; equality of maps regards the order, as documented.")

p("C15", "Reading a node gives its data, and a wrong access gives its position",
  "Every accessor of a node returns the data of the node when the node has the accessed kind, and otherwise fails with the position of the node whose kind is wrong; looking up a key, an index or a path finds the entry equal to it or reports the position of the map. "
  "Conversions from Rust values produce nodes from which the same accessors read the same values back, and modifying accessors change only that node.",
  ["inputs", "histories"], "all nodes, all accessors, all paths",
  "The tests and doctests show each accessor once.",
  ["src/node.rs", "src/yaml.rs", "src/indicator.rs"], [("accessors and conversions", "src/node.rs"), ("From of Yaml", "src/yaml.rs")],
  "model-based generation: every accessor of every node against the model tree",
  "Integer accessors are checked for all integer types; float access of integer nodes and string access of other scalars follow the documentation.")

p("C16", "Single-threaded and thread-safe nodes behave the same",
  "Parsing, dumping, comparing, hashing, serializing and displaying give the same result with reference-counted and atomically counted nodes, for every input and in both modes, errors included. "
  "Atomically counted nodes can be read from several threads at once with the same results.",
  ["inputs", "schedules"], "all inputs; concurrent readers of one tree",
  "Almost all tests use the single-threaded kind only.",
  ["src/repr.rs", M, "src/dumper.rs", "src/serde/mod.rs"], [("Repr", "src/repr.rs")],
  "differential generation: both representations on the same input, and concurrent readers",
  "Schedules of the readers are those the operating system produces; readers never write.")

p("C17", "The parser's building blocks move the cursor by exactly what they accept",
  "A sub-parser that succeeds moves the cursor behind exactly the text it accepts; one that fails with a mismatch moves it back to where its attempt began; and what was eaten can be read as text until it is consumed or given back. "
  "This holds for any sequence of symbol, set, repetition, context, counting, consuming and indentation steps on any input.",
  ["inputs", "histories"], "all sequences of sub-parser calls on all inputs",
  "The tests call four sub-parsers on one input each.",
  [B, G], [("cursor", B), ("grammar rules", G)],
  "stateful model-based generation of sub-parser call sequences against a cursor model",
  "The model covers the public sub-parsers that extensions build on; grammar rules are checked for cursor discipline and accepted text.")

p("C18", "Malformed documents are rejected",
  "A document made malformed by one defect is an error and never silently parsed into other data: an unclosed or mismatched bracket or quote, content behind a quoted string or closed collection, a missing or surplus comma, a second colon or a multi-line implicit key in an entry, a block collection in the line of its key or of a property, a missing blank behind a colon, text behind a comment in a plain scalar, an entry at an indentation no open collection has, an item or entry of the wrong kind among its siblings, an undefined alias, a malformed tag, anchor or block scalar header. "
  "This holds for a defect at any depth and place of any document.",
  ["inputs"], "all well-formed documents with one such defect inserted",
  "The tests contain three rejected documents.",
  [G, B, M], [("terminating errors of the grammar", G), ("indentation", B)],
  "mutation: one defect of a known class inserted into generated documents; acceptance is a violation",
  "Only defects that leave no valid reading are inserted; where this parser is documented to be lenient the defect class is left out (DESIGN.md).")

p("C19", "JSON documents parse to the data JSON gives them",
  "A JSON text, compact or pretty-printed, parses as YAML to the same data: objects, arrays, strings, numbers, booleans and null. "
  "Values of a JSON library convert through serde to nodes and back, and through text and back, without change.",
  ["inputs"], "all JSON values; their JSON texts in compact and pretty form with all escapes",
  "No test parses JSON.",
  [G, M, "src/serde/de.rs", "src/serde/ser.rs"], [("flow collections", G), ("quoted strings", G), ("serde", "src/serde/mod.rs")],
  "differential generation against serde_json",
  "serde_json and the generated tree are independent oracles for text and data. Repeated keys are outside the domain.")


def main():
    built = {os.path.basename(f)[:-3].upper() for f in glob.glob(ROOT + "/harness/src/props/c[0-9]*.rs")}
    with open(ROOT + "/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["text"]},
                "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mechanism"]]},
            }, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./run.sh build",
        "checks": [{
            "property": x["id"],
            "quick_cmd": f"./run.sh check {x['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {x['id']}",
            "evidence_file": f"evidence/{x['id']}.json",
            "technique": "property-based testing / fuzzing: " + x["technique"],
            "level": "exploration",
            "level_note": x["note"],
        } for x in P if x["id"] in built],
        "not_applicable": [{"property": x["id"], "reason": "no check built yet"} for x in P if x["id"] not in built],
        "notes": "No hooks: the harness uses the public API only. `./run.sh replay <file>` repeats a reported case; tools/manifest.py writes this file and properties.jsonl.",
    }
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(ROOT + "/MANIFEST.json", "a").write("\n")


main()
