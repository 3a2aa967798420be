import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
Y="src/yaml/"
p("C01","Parsing then writing an unedited document reproduces the input bytes",
 "For every byte string that `yaml::from_slice` accepts, writing the unedited document with `Document::write_to` yields exactly the bytes that were parsed. Comments, blank lines, directives and document markers, spacing around separators, quoting style, trailing separators, indentation characters and non-UTF-8 bytes are all reproduced.",
 ["inputs"],"every accepted byte string, UTF-8 or not, in block and flow style, with scalars of every kind",
 "Around 20 hand-picked documents are round-tripped; loss happens for particular byte combinations at particular places (a space before a comma, a block scalar at end of file) among infinitely many inputs.",
 [Y+"parsing.rs",Y+"raw.rs",Y+"document.rs"],
 [("every consumed byte is stored in a prefix, a suffix, a separator or a raw string",Y+"parsing.rs: Parser::{ws_nl,inline_sequence,inline_mapping,sequence,mapping_or_nul,block,value,start_of_document}"),("serialization concatenates them in order",Y+"raw.rs: *::write_to"),("document prefix/suffix",Y+"document.rs: Document::write_to")],
 ["yaml::from_slice","Document::write_to"],
 [("layout.prefix","whitespace and comments in front of a value or item",Y+"raw.rs: Layout"),("original","verbatim text of quoted and block scalars",Y+"raw.rs: String")])
p("C02","Parsing any bytes terminates with a document or an in-bounds error",
 "For every byte string (nesting no deeper than the call stack allows), `yaml::from_slice` terminates, does not panic, and returns either a document or an error. An error's span satisfies start <= end <= input length.",
 ["inputs"],"all byte strings, including truncated, malformed and non-UTF-8 ones",
 "Tests feed well-formed documents and seven hand-written malformed ones; a hang, an out-of-range slice or an out-of-bounds span needs a particular truncation or byte.",
 [Y+"parsing.rs",Y+"error.rs",Y+"raw.rs"],
 [("cursor saturates at the input length",Y+"parsing.rs: Parser::{bump,peek,string,find,find2}"),("span computation",Y+"parsing.rs: Error::new call sites, span_back")],
 ["yaml::from_slice","Error::span"])
p("C03","Display and write_to produce the same text",
 "For every document whose content is valid UTF-8, parsed or edited in any way through the API, `Document`'s `Display` output and the bytes written by `Document::write_to` are identical.",
 ["inputs","histories"],"every UTF-8 document, followed by any sequence of edits, including strings that need escaping and containers that are or become empty",
 "Display and write_to are two separate hand-written serializers; the tests compare them only on the doc-test documents.",
 [Y+"raw.rs",Y+"document.rs"],
 [("parallel display/write_to implementations",Y+"raw.rs: {Raw,Null,Boolean,Number,String,Sequence,SequenceItem,Mapping,MappingItem}::{display,write_to}")],
 ["Document: Display","Document::write_to"])
p("C04","Each plain scalar is given one type, decided by its text alone",
 "A plain scalar reads as null exactly when its text is `~` or `null` in any letter case (or it is omitted), as a boolean exactly when it is `true` or `false` in any letter case with that value, as a number exactly when it has number syntax (optional `-`, at least one digit, at most one `.`, and at most one `e`/`E` after a digit), and otherwise as a string whose content is the text itself. A plain scalar's text ends before whitespace that ends the line or is followed by `#`. This holds alike at the document root, as a block mapping value, as a block sequence item and inside flow collections, and exactly one of the typed views (`as_any`, `as_bool`, `as_str`, `as_number`, `as_mapping`, `as_sequence`) applies to any value.",
 ["inputs"],"every plain-scalar text in each of the four positions",
 "Tests read a handful of scalars; misclassification depends on the exact characters and on the position.",
 [Y+"parsing.rs",Y+"value.rs",Y+"any.rs"],
 [("number recognition",Y+"parsing.rs: Parser::number"),("keyword recognition",Y+"parsing.rs: Parser::value"),("typed views",Y+"value.rs: Value::{as_any,into_any,as_str,as_bool,as_number,as_mapping,as_sequence}")],
 ["Value::as_any","Value::as_bool","Value::as_str","Value::as_number"])
p("C05","Integer accessors are exact and never wrap, truncate or saturate",
 "For a number whose text is an optional `-` followed by decimal digits, every integer accessor (`as_u8` … `as_i128`, on `Value` and on `Number`) returns the mathematical value when it fits the requested type and `None` when it does not (the unsigned ones return `None` for any text with a `-`). For numbers with a fraction or an exponent, and for values which are not numbers, every integer accessor returns `None`.",
 ["inputs"],"every digit string, all ten integer widths, including the values around each type's limits",
 "Each accessor is tested with one two-digit number; limits and overflow are never reached.",
 [Y+"value.rs",Y+"number.rs"],
 [("conversion of the stored digits",Y+"value.rs: as_number! / "+Y+"number.rs: as_number!")],
 ["Value::as_*","Number::as_*"])
p("C06","Quoted scalars decode to the string they denote",
 "In text without NUL bytes, a single-quoted scalar reads as its content with every doubled quote collapsed to one. A double-quoted scalar reads as its content with every escape (`\\0 \\a \\b \\t \\n \\v \\f \\r \\e \\\" \\\\ \\xHH \\uHHHH`) replaced by the character it denotes, as UTF-8; an unknown or malformed escape, or one naming no character, is an error. Decoding is the same wherever the scalar occurs (root, value, item, flow collection, key), and all other bytes are kept as they are.",
 ["inputs"],"every content of quoted scalars, every hex escape value",
 "12 fixed escapes are tested in one position each; interactions (several escapes, adjacent quotes, surrogates, truncated hex) are not.",
 [Y+"parsing.rs"],
 [("single-quoted scanner",Y+"parsing.rs: Parser::{single_quoted,single_quoted_escaped}"),("double-quoted scanner",Y+"parsing.rs: Parser::{double_quoted,double_quoted_escaped,unescape,unescape_unicode}")],
 ["Value::as_str","Value::as_bstr","Mapping::get","Error::kind"])
p("C07","Block scalars decode by their style and chomping indicator",
 "A literal (`|`) block scalar (lines of equal indentation, read without surrounding whitespace) reads as its lines joined by line breaks, blank lines between them kept, and a folded (`>`) one as its lines joined by single spaces, in both cases without the indentation. With `-` no trailing line break is kept, without indicator exactly one, and with `+` all of them. The scalar ends at the first line indented less than its first line, and what follows parses as if the block were any other value.",
 ["inputs"],"line contents, number of lines and blank lines, indentation widths, the six style/indicator combinations, with or without following siblings",
 "Tests read six fixed block scalars with the same three lines and one trailing newline.",
 [Y+"parsing.rs"],
 [("block scanner",Y+"parsing.rs: Parser::block"),("style selection",Y+"parsing.rs: Parser::value")],
 ["Value::as_str","Mapping::get","Sequence::get"])
p("C08","Block indentation and flow brackets determine the tree that is read",
 "Reading a document of consistently indented block mappings and sequences and of flow collections yields the tree its indentation and brackets denote: the same containers, in the same order, with the same keys and the same scalars. `len`, `is_empty`, `get`, `first`, `last` and iteration all describe that same tree, `get` finds the first entry with exactly the given key and nothing else, and quoted keys are found by their decoded text at every position.",
 ["inputs"],"documents of nested block and flow containers with arbitrary key and scalar bytes, indentation widths, separators and comments",
 "A few fixed documents are compared with another YAML library; how siblings, nulls and dedents interact depends on the combination.",
 [Y+"parsing.rs",Y+"mapping/mapping.rs",Y+"sequence/sequence.rs"],
 [("indent comparison ends containers",Y+"parsing.rs: Parser::{sequence,mapping_or_nul,indent_from}"),("flow containers",Y+"parsing.rs: Parser::{inline_sequence,inline_mapping}"),("lookups",Y+"mapping/mapping.rs: Mapping::get, "+Y+"sequence/sequence.rs: Sequence::{get,first,last}")],
 ["Mapping::{get,len,iter}","Sequence::{get,len,first,last,iter}"])
p("C09","Replacing a scalar changes only that scalar's own bytes",
 "When a scalar is replaced through any `set_*` method (or by inserting under an existing key of a mapping), the serialized document equals the original with exactly the text of that scalar replaced by the new value's text. Every other byte, including comments, spacing and all other values, keys and quoting, is untouched (only an omitted value gains the space that separates it from its key or dash), and setting several scalars in any order gives the same document.",
 ["inputs","histories"],"documents of every style, every scalar in them, every replacement value, sequences of replacements",
 "Tests check a few edits against full expected documents; whether an edit disturbs its surroundings depends on the surroundings.",
 [Y+"value_mut.rs",Y+"data.rs",Y+"raw.rs"],
 [("replace keeps the layout",Y+"data.rs: Data::replace"),("setters",Y+"value_mut.rs: ValueMut::set_*")],
 ["Document::write_to","Document: Display"])
p("C10","A number, bool or null that is set reads back as itself",
 "After setting, inserting or pushing a bool, a null or an integer of any of the ten widths, the typed accessor returns exactly that value, both directly on the edited document and after writing the document out and parsing it again. Accessors of other kinds return nothing for it. (An empty null pushed to a flow sequence is no item when it is read again.)",
 ["inputs","histories"],"all integers of all widths, both bools, the three null spellings, at root, in mappings, in sequences and in flow collections",
 "Each setter is exercised with the value 42 or -42 and its text compared, in one position.",
 [Y+"value_mut.rs",Y+"mapping/mapping_mut.rs",Y+"sequence/sequence_mut.rs",Y+"raw.rs"],
 [("setters",Y+"value_mut.rs: set_number!, set_bool, set_null"),("inserts",Y+"mapping/mapping_mut.rs: insert_number!, insert_bool"),("pushes",Y+"sequence/sequence_mut.rs: push_number!, push_bool")],
 ["Value::as_*","Document::write_to","yaml::from_slice"])
p("C11","A string that is set reads back as the same string after a round trip",
 "After setting, inserting or pushing any Rust string with automatic quoting, `as_str` returns exactly that string, both directly and after writing the document out and parsing it again, and the rest of the document reads the same as before. The same holds when single quotes are requested for any string, and when double quotes are requested.",
 ["inputs","histories"],"every string, as root, block mapping value, block sequence item and flow item",
 "Only simple words are set in the tests; the style chosen and the escaping depend on every character, and on look-alikes of other types.",
 [Y+"raw.rs",Y+"parsing.rs"],
 [("quoting decision",Y+"raw.rs: RawStringKind::detect"),("escaping",Y+"raw.rs: String::{display,write_to}"),("unescaping",Y+"parsing.rs: Parser::{single_quoted,double_quoted,unescape}")],
 ["ValueMut::{set_string,set_string_with}","MappingMut::insert_str","SequenceMut::push_string","Value::as_str"])
p("C12","A block scalar that is set reads back as its lines and swallows nothing",
 "After setting, inserting or pushing a block of lines, `as_str` returns the lines joined as the chosen style says (line breaks for literal, spaces for folded) with a final line break unless stripping was requested. For non-empty lines without surrounding whitespace or leading `#`, in a block-style document that ends in a line break, unless a blank line or a comment follows a block with `Keep`, writing the document out and parsing it again gives the same string, and every other entry of the document is still there with its value.",
 ["inputs","histories"],"line texts and counts, the six style/chomping combinations, target positions at every nesting depth, with and without following siblings",
 "Tests insert the same two or three words at depth at most two and compare the text.",
 [Y+"raw.rs",Y+"value_mut.rs",Y+"mapping/mapping_mut.rs",Y+"sequence/sequence_mut.rs"],
 [("block construction and indentation",Y+"raw.rs: new_block")],
 ["ValueMut::set_block","MappingMut::insert_block","SequenceMut::push_block","Value::as_str"])
p("C13","Mapping edits behave like an insertion-ordered map, also after a round trip",
 "Inserting under a key replaces the value of an existing entry in place and otherwise appends one entry; removing a key removes exactly the first entry with that key and reports whether there was one; clearing removes all. `len`, `get` and iteration reflect exactly that history, entries that were not addressed keep their keys, values and order, and writing the document out and parsing it again reads as the same mapping (when it is not empty, for plain-word keys, and in documents that end in a line break after a block scalar).",
 ["inputs","histories"],"block and flow mappings, any sequence of inserts, removals and clears with any keys, existing or not",
 "Tests do one insert or one remove on one fixed document; order, duplicates, first/last entries and repeated edits interact.",
 [Y+"mapping/mapping_mut.rs",Y+"data.rs"],
 [("insert",Y+"mapping/mapping_mut.rs: MappingMut::{inner_insert,make_prefix}"),("remove/clear",Y+"mapping/mapping_mut.rs: MappingMut::{remove,clear}"),("recursive free",Y+"data.rs: Data::{drop,drop_kind,replace}")],
 ["MappingMut::{insert*,remove,clear,get_mut,get_into_mut}","Mapping::{get,len,iter}","Document::write_to"])
p("C14","Sequence edits behave like a vector, also after a round trip",
 "Pushing appends one element; removing an index removes exactly that element and reports whether it existed; clearing removes all. `len`, `get`, `first`, `last` and iteration reflect exactly that history, elements that were not addressed keep their values and order, and writing the document out and parsing it again reads as the same sequence (when it is not empty).",
 ["inputs","histories"],"block and flow sequences, any sequence of pushes, removals and clears with any index",
 "Tests do one push or one remove on one fixed document.",
 [Y+"sequence/sequence_mut.rs",Y+"data.rs"],
 [("push",Y+"sequence/sequence_mut.rs: SequenceMut::{inner_push,make_prefix}"),("remove/clear",Y+"sequence/sequence_mut.rs: SequenceMut::{remove,clear}")],
 ["SequenceMut::{push*,remove,clear,get_mut,get_into_mut}","Sequence::{get,len,first,last,iter}","Document::write_to"])
p("C15","Nested containers built through the API re-parse as the tree that was built",
 "Turning a block-style value into a mapping or sequence with `make_mapping` or `make_sequence` leaves it unchanged when it already is one, and otherwise makes it an empty one that accepts entries, to any depth. Writing the document out after filling such containers and parsing it again gives the same tree, with every pre-existing entry intact, whatever the indentation of the surrounding document.",
 ["inputs","histories"],"build sequences nesting mappings and sequences, placed at the root, under keys and in items of existing block documents with arbitrary indentation",
 "Four fixed build sequences are compared with expected text.",
 [Y+"value_mut.rs",Y+"raw.rs",Y+"mapping/mapping_mut.rs",Y+"sequence/sequence_mut.rs"],
 [("indentation synthesis",Y+"raw.rs: make_indent"),("conversion",Y+"value_mut.rs: ValueMut::{make_mapping,make_sequence}"),("item prefixes",Y+"mapping/mapping_mut.rs: inner_insert, "+Y+"sequence/sequence_mut.rs: inner_push")],
 ["ValueMut::{make_mapping,make_sequence}","MappingMut::insert","SequenceMut::push","Document::write_to"])
p("C16","Ids keep naming the same value across edits elsewhere, and clones are separate",
 "An `Id` taken from a value, mapping or sequence resolves, through `Document::value` and `value_mut`, to that same value for as long as the value is in the document, whatever is inserted, removed, replaced or converted elsewhere. Edits made through an id or a `*_mut` view affect exactly the value it names, and editing a clone of a document never changes the original, nor the other way round.",
 ["inputs","histories"],"documents, positions of the id, and sequences of edits to other values that free and reuse storage",
 "One doc-test stores ids and replaces scalars; storage reuse after removals is never exercised.",
 [Y+"data.rs",Y+"document.rs"],
 [("slab storage and recursive free",Y+"data.rs: Data::{insert,drop,drop_kind,replace}"),("id lookup",Y+"document.rs: Document::{value,value_mut}")],
 ["Value::id","Document::{value,value_mut}","Document: Clone"])
p("C17","Iterators yield each entry once, in order, from both ends",
 "Iterating a mapping or a sequence yields exactly its entries, in document order, each once, as `get` and `len` describe them. Any interleaving of `next`, `next_back`, `nth` and `nth_back` gives what the same calls give on an iterator over a plain list of the entries, and `size_hint`/`len` always equal the number of entries left.",
 ["inputs","histories"],"containers of any length and every interleaving of iterator calls with every skip count",
 "No test calls nth, nth_back or mixes directions.",
 [Y+"mapping/iter.rs",Y+"sequence/iter.rs"],
 [("delegation to slice iterators",Y+"mapping/iter.rs, "+Y+"sequence/iter.rs")],
 ["mapping::Iter","sequence::Iter"])
p("C18","Serde sees the same value as the typed accessors, and always terminates",
 "With the `serde` feature, serializing a value presents to the serializer exactly the null, bool, number, string, sequence or mapping that the typed accessors report, entry by entry and in order; numbers whose text does not fit their natural width become a null. Deserializing from a value hands the visitor the same data, in particular every integer, string and option type gets the accessor's value when it has one, and otherwise the request falls back to the value's own type or an error; it terminates for every document.",
 ["inputs"],"every document and every requested target type, including numbers too large for any width",
 "One document is deserialized into one type and serialized once.",
 [Y+"serde/de.rs",Y+"serde/ser.rs"],
 [("deserializer dispatch",Y+"serde/de.rs"),("serializer dispatch",Y+"serde/ser.rs"),("number hints",Y+"parsing.rs: Parser::number")],
 ["Value: Serialize","Value: Deserializer"])
p("C19","A serde-edits snapshot restores the same document",
 "With the `serde-edits` feature, serializing a document, parsed or edited, to a self-describing format (one whose map keys needn't be strings) and deserializing it gives a document with the same text and the same values. Ids taken before the snapshot name the same values in the restored document, and further edits behave alike on both.",
 ["inputs","histories"],"documents of every style, with and without preceding edits",
 "No test exercises the feature at all.",
 [Y+"document.rs",Y+"data.rs",Y+"raw.rs"],
 [("derived (de)serialization of the whole document state",Y+"document.rs: Document; "+Y+"data.rs: Data, StringId, Id, Entry; "+Y+"raw.rs: Raw and its parts")],
 ["Document: Serialize","Document: Deserialize"])
p("C20","Displaying a part of a document gives exactly its source text",
 "For a value, mapping or sequence of an unedited UTF-8 document, `Display` gives the contiguous slice of the input which that node occupies, without the whitespace before it. `String::as_raw` and `Number::as_raw` give the exact source text of the scalar (for a block scalar, its text after the style indicator).",
 ["inputs"],"every node of every UTF-8 document",
 "Three doc-tests print a fragment.",
 [Y+"value.rs",Y+"raw.rs",Y+"string.rs",Y+"number.rs"],
 [("display of nodes without prefix",Y+"raw.rs: Raw::display"),("raw text",Y+"string.rs: String::as_raw, "+Y+"number.rs: Number::as_raw")],
 ["Value: Display","Mapping: Display","Sequence: Display","String::as_raw","Number::as_raw"])
p("C21","Floating-point values survive setting and re-reading bit for bit",
 "After setting, inserting or pushing any finite f32 or f64, the matching accessor returns the same number, directly and after writing the document out and parsing it again.",
 ["inputs"],"all finite f32 and f64 values",
 "One value (10.42) is tested.",
 [Y+"value_mut.rs",Y+"value.rs"],
 [("shortest decimal formatting and parsing",Y+"value_mut.rs: set_float!, "+Y+"value.rs: as_number!")],
 ["ValueMut::{set_f32,set_f64}","Value::{as_f32,as_f64}"])
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
import sys
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
