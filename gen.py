#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the statements below and table.py."""
import json, os
import table

HERE = os.path.dirname(os.path.abspath(__file__))
DE, SER, LIB = "static-xml/src/de/mod.rs", "static-xml/src/ser/mod.rs", "static-xml/src/lib.rs"
DD, DC, DS, DP, DT = ("static-xml-derive/src/" + x for x in ("deserialize.rs", "common.rs", "serialize.rs", "parse.rs", "to_text.rs"))
TESTS = "The 21 stable tests read or write a few dozen fixed documents"

PROPS = [
 ("R01", "Reading untrusted bytes is total and memory-safe",
  "Reading any byte sequence into any type that implements the documented traits, derived or hand-written, ends with a value or an error. It never panics, aborts, loops forever, uses memory out of proportion to the document, overflows an integer, or reads or writes memory it does not own (the derived code's uninitialized output slots included). This holds also when a hand-written visitor leaves a child unread, reads part of it, or ignores an error from it.",
  ["inputs", "programs"], "every byte sequence (within the size bounds), for a range of derived and hand-written types",
  TESTS + ", nearly all of them well-formed; a panic or bad memory access hides in inputs nobody wrote down.",
  [DE, DD], [("Reader::next / return_to_depth", DE), ("ElementReader::read_to", DE), ("RawDeserializeVisitor with MaybeUninit output", DD)],
  ["result of static_xml::read / from_str"]),
 ("R02", "Elements and attributes are matched by expanded name only",
  "A derived type takes an element or attribute for a field exactly if namespace URI and local name both equal those the field declares, whatever prefixes, default namespace declarations or re-declarations the document uses, and however many fields with similar names the type has. An unprefixed attribute has no namespace; an unprefixed element is in the default namespace in scope. Names are compared case-sensitively, as a whole, and a raw identifier names its field without r#.",
  ["inputs", "programs"], "every name of 1-2 characters and every way of binding prefixes to the URIs involved",
  TESTS + "; matching is by binary search over a sorted table, which fails only for particular neighbouring names.",
  [LIB, DE, DD, DC], [("ExpandedNameRef ordering and from_xml_name", LIB), ("find in a sorted slice", DE), ("element_match_branches / attribute_match_branches", DD), ("prefix resolution", DC)],
  ["fields of the value read"]),
 ("R03", "Field cardinality is enforced exactly",
  "Reading succeeds exactly if every required child element or attribute is present and no single-valued child occurs twice; otherwise it is an error. An absent optional field reads as None, an absent repeated field as empty, and an absent field declared default as its type's default. Repeated children are kept completely and in document order; neither unknown children nor the order of differently named ones matter.",
  ["inputs", "histories"], "every sequence of up to 5 children and every subset of the attributes",
  TESTS + ", not combinations of absence, repetition and interleaving.",
  [DE, DD], [("DeserializeElementField::init/update/missing", DE), ("finalize_visitor_fields", DD)],
  ["result of static_xml::read"]),
 ("R04", "Choice enums and flattened fields take exactly what is theirs",
  "A derived choice enum reads the one variant whose element occurs and rejects a document with none, with elements of different variants, or with a variant's element twice unless its type is repeated (for variants without content a repetition is unspecified); variants marked skip neither match a document nor can be written. Flattened fields are offered each attribute, element and text the struct itself does not take, in declaration order, and what one does not take the next one gets, whatever was read before. Fields of the struct itself take precedence over flattened ones.",
  ["inputs", "histories", "programs"], "every sequence of up to 5 children over the variants and fields",
  TESTS + "; whether an element is passed on depends on what the choice has already consumed.",
  [DD, DE, DS], [("do_enum's visitor", DD), ("delegate_element / delegate_attribute / delegate_characters", DE)],
  ["value or error from static_xml::read; error from the serializer for skipped variants"]),
 ("R05", "Unread content is skipped without disturbing the rest",
  "Whatever a visitor does with a child - takes it, ignores it, reads part of it, or swallows an error from reading it - its parent afterwards sees exactly its own remaining attributes, children and text, each once and in order. Unknown elements, with any content nested in them, change nothing about the values of known fields.",
  ["inputs", "histories", "programs"], "every combination of visitor behaviour and children, to depth 3",
  TESTS + " and no test has a visitor that stops in the middle.",
  [DE], [("ErasedReader::return_to_depth", DE), ("ElementReader::read_to loop", DE)],
  ["events a visitor sees", "fields of the value read"]),
 ("R06", "Text is read exactly, whatever its lexical form",
  "A text-typed element reads as the concatenation, in document order and without loss, of its character data: literal characters and white space, CDATA sections, predefined entities and character references, with comments and processing instructions ignored wherever they stand; an empty element reads as the empty string. An attribute reads as its value with entities and character references replaced. A child element inside a text-typed element is an error.",
  ["inputs"], "every sequence of up to 5 pieces of content",
  TESTS + ", none with adjacent CDATA, comments and white space.",
  [DE], [("ElementReader::read_string", DE), ("parser configuration", DE), ("Event::Characters", DE)],
  ["String fields of the value read"]),
 ("R07", "White space normalization follows XML Schema",
  "Preserve leaves any string unchanged. Replace turns each tab, line feed and carriage return into one space and changes nothing else. Collapse replaces, then reduces runs of spaces to one and removes leading and trailing ones; other Unicode white space is left alone, and the result is valid UTF-8; derived text types normalize as they declare before they match.",
  ["inputs"], "every string of up to 16 bytes (quick), 20 (thorough), plus multi-byte and long ones",
  TESTS + " and the in-place byte rewriting fails only for particular run lengths and positions.",
  [DE, DP], [("normalize", DE), ("whitespace option", DP)],
  ["result of static_xml::de::normalize", "values of derived text types"]),
 ("R08", "bool and integer text forms are read and written exactly",
  "Boolean text reads as true for exactly true and 1 and as false for exactly false and 0, surrounded by any XML white space. An integer reads exactly if, stripped of surrounding XML white space, it is an optional + (or, for signed types, -) followed by one or more ASCII digits whose value the type can represent, and gives that value; anything else is an error. Every bool and integer is written in canonical form and reads back as itself.",
  ["inputs"], "every string of up to 4 bytes, digit strings around every bound, every value of the 8- to 32-bit types",
  TESTS + "; bounds, signs and white space combinations are not covered for each type.",
  [DE, SER], [("ParseText for bool and text_for_num", DE), ("text_from_display", SER)],
  ["ParseText::parse", "ToText::to_text"]),
 ("R09", "Derived text enums map texts and variants one to one",
  "A restriction enum accepts exactly its variants' texts (after the declared white space normalization) and otherwise uses its unknown variant with the text, or fails; each variant is written as the text that reads as it. A union gives the first variant, in declaration order, whose type accepts the text, fails exactly if none does, and is written as its content is. mode = std reads with FromStr and writes with Display.",
  ["inputs", "programs"], "every string of up to 4 bytes and every one-byte change of a variant's text",
  TESTS + " and never near-misses of variant texts.",
  [DP, DT, DC], [("do_restriction / do_union / do_std", DP), ("parse_restriction_fields / parse_union_fields", DC)],
  ["ParseText::parse", "ToText::to_text"]),
 ("R10", "Read errors carry their cause, position and element stack",
  "The stack of the error of a failed read lists exactly the elements open where it happened, from the root inwards, each with its name and the position of its start tag. A user's error is available as the error's source, and the displayed error is its cause followed by position and stack. Duplicate, missing and unexpected items are reported under their expanded names, and malformed or truncated XML is an error whatever the type being read.",
  ["inputs", "fault_sequences"], "an error of each kind at each place of documents to depth 6",
  "Tests do not look at the stack or positions of errors, and they depend on where in a document an error strikes.",
  [DE], [("Error, VisitorError::wrap", DE), ("element stack", DE)],
  ["Error::stack, Display, source"]),
 ("R11", "Reading does not depend on how the source delivers its bytes",
  "Reading from any std::io::Read gives the same value or error, whether it delivers the document at once, a byte at a time or in any chunks, and with interruptions (ErrorKind::Interrupted) anywhere. Any other I/O error the source returns before the root element's end is reported as an error, never as a value, with the source's error as its cause, and so is a source that ends anywhere before the end of the root element.",
  ["fault_sequences", "inputs"], "every placement of chunk boundaries, interruptions, one I/O error or the end in documents exercising each event kind",
  "Tests read from in-memory strings only.",
  [DE], [("Reader over xml::EventReader", DE), ("read", DE)],
  ["result of static_xml::read on a user's Read"]),
 ("R12", "Exactly one complete, well-formed document is accepted",
  "A value is returned only if the whole input is structurally one well-formed document: one root element, an end tag matching each start tag, every tag, comment, CDATA section, instruction and reference complete, no attribute spelled twice in a tag, and after the root nothing but white space, comments and processing instructions; this holds also inside elements nobody reads. The XML parser's leniency about characters inside a single tag or instruction is outside. A declaration, white space, comments and processing instructions before the root, and comments and processing instructions anywhere, change no value. Anything else gives an error.",
  ["inputs"], "every one-byte change and every short insertion at each place of documents with known, unknown and skipped parts",
  TESTS + "; text after the root or damage inside a skipped element is not among them.",
  [DE], [("Reader::root", DE), ("Reader::end", DE), ("return_to_depth", DE)],
  ["result of static_xml::read"]),
 ("R13", "An attribute is never read or written twice",
  "Reading an element that has two attributes with the same expanded name, however their prefixes are spelled, into a type that has a field for it is an error. Adding an attribute an element already has while serializing is reported as an error; a program that carries on all the same gets a well-formed document with the first of the two only. Attributes that differ in namespace or local name never conflict.",
  ["inputs", "programs"], "every pair of attributes out of the namespaces and names involved, spelled with any prefixes",
  "Tests never use the same expanded name under two prefixes.",
  [DD, SER], [("attribute stores", DD), ("ElementBuilder::attribute", SER)],
  ["result of static_xml::read", "result of the serializer"]),
 ("R14", "Every value read is dropped exactly once",
  "Whatever a document contains, however its source fails, and whatever visitors do, every value a read creates is either part of the value it returns or dropped by the time the read returns and its error, if any, is dropped; no value is handed out or dropped twice, or used after being dropped. A read, successful or not, leaves no allocation behind besides the value or error it returns, and dropping that releases all of it.",
  ["inputs", "histories"], "every sequence of up to 5 children, valid or not, over derived types with every field kind, and every cut, fault or one-byte change of full documents",
  "A double drop or leak passes any test that only compares values.",
  [DE, DD], [("MaybeUninit output and finalize", DD), ("stores", DE)],
  ["drop counts of user types", "live heap objects"]),
 ("R15", "A visitor sees the document's content exactly",
  "A hand-written visitor is called with each attribute, child element and piece of text of its element exactly once, in document order, attributes first, with the right expanded names, values, depth and in-scope namespaces, where the pieces of text between two children together are the text there (white space alone between two pieces of markup may be omitted). What it passes back rather than taking is skipped. Reading a child returns its name, namespaces and where its end tag is. Entities and character references arrive decoded.",
  ["inputs", "programs"], "every document out of trees of up to 4 nodes with free characters and any prefix bindings",
  "Tests use one visitor that ignores everything.",
  [DE], [("ElementVisitor", DE), ("ElementReader::read_to", DE), ("ElementReader::expanded_name / namespace / depth", DE)],
  ["calls a visitor receives"]),
 ("W01", "Written documents have exactly the intended expanded names",
  "Whatever prefixes and namespaces types ask for - conflicting, missing, overridden at any depth, or needing escapes - what is written is well-formed, and each of its elements and attributes has exactly the expanded name it was given. A document written by a derived type has each field under the namespace the field declares. Documents in which no namespace is declared for a name that needs one are outside.",
  ["programs", "inputs"], "every combination of up to 3-4 requested prefixes and URIs over chains of up to 4 elements",
  TESTS + "; two of them check one prefix conflict each.",
  [SER, DS], [("NamespacesBuilder / Namespaces", SER), ("resolve_element / resolve_attribute", SER), ("write_namespaces", DS)],
  ["expanded names in the parsed output"]),
 ("W02", "Text and attribute values survive writing",
  "Every string of characters XML allows, written as an element's text or as an attribute's value, reads back as the same string, markup characters, quotes, line breaks and tabs, leading and trailing white space, ]]> and non-ASCII characters included, and cannot alter the structure of the document around it. Excepted is what XML itself normalizes: a carriage return in text. The output is always valid UTF-8.",
  ["inputs"], "every string of up to 4 free characters, in text and in attributes, alone and next to children",
  TESTS + ", with two or three special characters.",
  [SER], [("ElementWriter::text", SER), ("ElementBuilder::attribute", SER), ("text configuration when reading", DE)],
  ["value read back from the output"]),
 ("W03", "Serializing and reading a value is the identity",
  "For a type deriving both traits, any value that is written can be read as the same type and gives an equal value: attributes, elements, Option, Vec, nested and recursive structs, default fields, choices, flattened choices, derived text types and names in several namespaces, in any combination. Attributes and elements appear in declaration order, flattened fields after the others; absent optional fields leave no trace, and writing the value read gives the same bytes. Excepted are values that have no text of their own: a choice whose repeated variant is empty, a union value whose text an earlier variant accepts.",
  ["inputs", "programs"], "all values with up to 2-3 repetitions and free 1 character texts over a set of types, trees of up to 7 elements, nesting and repetition up to 20",
  TESTS + " round trip single fixed values.",
  [DS, DD, DC, SER, DE], [("derived Serialize", DS), ("derived Deserialize", DD)],
  ["value read back from the output"]),
 ("W04", "The serializer reports success only for a complete document",
  "If serializing a document of names and characters XML allows reports success, the writer has received one complete, well-formed document, all of it. A write error, a writer that accepts nothing, a builder or writer dropped without being finished, at any point and even if the user's code ignores the error, makes the whole operation fail; after a failed write nothing more is written. Short writes and interruptions do not change the bytes delivered. Whether the writer is flushed is outside.",
  ["fault_sequences", "programs", "crash_points"], "a fault at every write, every split of writes, and every sequence of misuse of up to 4 steps",
  "Tests write to memory, which never fails, and misuse the API in two ways.",
  [SER], [("WrappedWriter::poison", SER), ("Drop for ElementBuilder / ElementWriter", SER), ("Serializer::to", SER)],
  ["result of Serializer::to and the bytes received"]),
 ("W05", "Serializer options change only what they name",
  "With the document declaration off the output is that with it on less the declaration, and the declaration is correct. With indentation on, the output read back has the same elements, attributes and non-white-space text, and derived types read the same value. Options set in any order or more than once act as last set, and each serializer can be used repeatedly with the same result.",
  ["configurations", "inputs"], "all options, set in any order, over documents of up to 4 nodes",
  TESTS + ", all with default options.",
  [SER], [("Serializer options", SER)],
  ["bytes written"]),
]

NA = [
 ("X01", "Floating-point text forms are read and written exactly",
  "An f32 or f64 reads as the nearest representable value of its decimal text, or as the special values XML Schema names, and every value but NaN is written so that it reads back as itself.",
  ["inputs"], "every lexical form and every value",
  TESTS + ", with few floats.",
  [DE, SER], [("text_for_num!(f32/f64)", DE), ("text_from_display!(f32/f64)", SER)],
  ["ParseText::parse", "ToText::to_text"],
  "The whole computation is std's float parser and printer (Eisel-Lemire and Grisu with 128-bit multiplications by table entries, big-integer fallback): symbolic-by-table 128-bit products over symbolic digits are out of the solver's reach, as a 64-bit decimal print already takes 30-55 s and a 128-bit one does not finish. static-xml adds only the white space trim, which R08 checks on the integer types through the same macro."),
]

NOTE = ("Bounded: within the stated bounds Z3 decides every branch and every assertion for all values of the symbolic inputs, over the LLVM IR "
        "rustc emits for the harness together with static-xml, the code its derives generate, and xml-rs; nothing is claimed outside them. Trusts "
        "rustc/LLVM, the engine's IR semantics (cross-checked natively on sampled paths of every run) and Z3. Bounds: ")


def obj(p):
    return dict(id=p[0], title=p[1], statement=p[2], quantifier=dict(over=p[3], text=p[4]), why_tests_cant=p[5],
                anchors=dict(files=p[6], mechanism=[dict(name=n, where=w) for n, w in p[7]], observe_at=p[8], hook_needed=None))


def main():
    live = [p for p in PROPS if p[0] in table.P]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in live + NA:
            assert len(p[1]) <= 80, p[1]
            f.write(json.dumps(obj(p)) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=p[0], quick_cmd=f"python3 check.py {p[0]} --tier quick", thorough_cmd=f"python3 check.py {p[0]} --tier thorough",
                          evidence_file=f"evidence/{p[0]}.json", technique="symbolic execution of LLVM IR with Z3 (bounded), native replay",
                          level="model_checking", level_note=NOTE + table.P[p[0]]["bounds"] + ". Outside: " + table.P[p[0]]["outside"] + ".") for p in live],
             not_applicable=[dict(property=p[0], reason=p[9]) for p in NA],
             notes="No hooks: only the public API is used. Known and fixed defects: known_findings.txt.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
