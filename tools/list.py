HOOKS = {"guard": "cargo feature verification-hooks of styx-lsp, styx-cli and styx-wasm", "enable": "harness/lsp depends on styx-lsp and harness/cli on styx-wasm with features = [\"verification-hooks\"]; harness/cli compiles styx-cli's main.rs with that feature of its own; the other harnesses need no hooks", "source_commits": ["91ff7a112f09474d49a7989ddc17a8662518efef", "f6936c6bd5b1b709d36b7e6be4fa1556f8446e9c", "bf2407959c88a01d7564c37e8a6fc6d751ec3fe9", "574d42384e2aba902f015fc5fec244c848f4b980"]}
TOK = "crates/styx-tokenizer/src/tokenizer.rs"
LEX = "crates/styx-parse/src/lexer.rs"
PAR = "crates/styx-parse/src/parser/mod.rs"
BLD = "crates/styx-tree/src/builder.rs"
WHY = "the tests sample a few dozen hand-written documents; the guarantee is about every document, including malformed, non-ASCII and truncated ones"

BOUNDS.update({
    "h_doc_qu": "quoted scalars in 5 contexts holding 0..=3 bytes of any UTF-8", "h_doc_qpos": "quoted scalars in 5 contexts: backslash or not, symbolic byte, 6 special sequences, 0..=1 byte, 3 endings",
    "h_doc_hd2": "heredocs: 2 newline forms, 6x4x5 line structures with symbolic indentation of 0..=3 blanks at three places",
    "h_doc_hdlang": "heredoc language hints: 0..=3 bytes over 9 characters, 2 newline forms, 3 bodies, 3 endings",
    "h_doc_dup": "three entries over 13 key spellings each in nested, element, root and tagged objects", "h_doc_dupattr": "three attributes with symbolic one-character keys, 3 value shapes",
    "h_doc_docs": "doc comments in two places over 5 contexts, 5 first entries, 4 separators, 3 following entries, 4 endings",
    "h_doc_ws": "layout: 0..=1, 2 and 1 bytes over 7 white and control characters around 11 openings, 7 items, 4 closings",
    "h_doc_nested_dotted": "dotted bare keys of 3 bytes over 4 characters inside nested objects", "h_doc_chains": "tag chains @a/@b with five payload forms",
    "h_tok_u4": "all UTF-8 strings of 0..=4 bytes", "h_tok_u5": "all UTF-8 strings of 5 bytes", "h_tok_u6": "all UTF-8 strings of 6 bytes",
    "h_tok_s7": "all strings of 7 bytes over a 13-character structural alphabet",
    "h_tok_raw": "raw strings: 3 prefixes, 0..=5 bytes over 4 characters, 0..=2 bytes of UTF-8",
    "h_tok_heredoc": "heredocs: 6 openings, symbolic opener tail, newline form, 0..=3 content bytes, 0..=1 UTF-8 byte, 8 endings",
    "h_tok_heredoc_u": "heredoc content of 0..=4 UTF-8 bytes, 3 endings, 0..=1 byte after",
    "h_doc_u3": "all UTF-8 documents of 0..=3 bytes", "h_doc_u4": "all UTF-8 documents of 4 bytes",
    "h_doc_s5": "all documents of 5 bytes over a 19-character structural alphabet", "h_doc_s6": "the same, 6 bytes",
    "h_doc_esc": "quoted scalar with 0..=5 bytes over an escape alphabet, a multi-byte character, 0..=2 more, 2 endings",
    "h_doc_uni": "unicode escapes: 4 openings, 0..=4 characters over hex digits and non-digits, 3 endings",
    "h_doc_raw": "raw scalars as key, value and payload: 0..=6 bytes over 5 characters, 3 endings",
    "h_doc_rawlong": "raw scalars with 250..=258 hashes on either side",
    "h_doc_heredoc": "heredocs as value, payload, element: newline form, 0..=5 content bytes over 6 characters, 6 endings",
    "h_doc_hdelim": "heredoc delimiters of 14..=18 characters against closing lines of 14..=17",
    "h_doc_tag": "tags in 4 contexts: 4 bytes over a 15-character alphabet, 5 endings",
    "h_doc_chain": "tag chains of 2 and 3 followed by 0..=3 bytes over 11 characters",
    "h_doc_attr": "attributes in 3 contexts: 4 bytes over 17 characters, 4 endings",
    "h_doc_keys": "three root entries with symbolic 3-byte keys", "h_doc_paths": "three/four root entries over 13 keys and paths, 3 values, implicit and explicit root",
    "h_doc_paths4": "four entries over 5 dotted paths", "h_doc_obj": "nested object with 5 bytes over 13 characters, 4 endings",
    "h_doc_seq": "sequence with 4 bytes over 14 characters, 4 endings",
    "h_doc_comment": "comments and doc comments in 7 contexts, 3 openings, 2+2 symbolic bytes, 7 continuations",
    "h_doc_mut1": "a 120-byte document using every construct, one character deleted or kept and 0..=2 bytes over 19 characters inserted, at every position",
    "h_doc_mut2": "a second such document with an explicit root and CRLF", "h_doc_mutu": "the first with 2 bytes of any UTF-8 inserted at every position",
    "h_ev_u3": "all UTF-8 documents of 0..=3 bytes", "h_ev_u4": "all UTF-8 documents of 4 bytes", "h_ev_s5": "all documents of 5 bytes over 19 characters",
    "h_ev_x4": "expression mode: 0..=4 bytes over 19 characters", "h_ev_x2": "expression mode: a nested value, one deletion, 0..=2 insertions, every position",
    "h_ev_esc": "invalid and valid escapes around 0..=2 bytes of any UTF-8", "h_ev_heredoc": "heredocs with symbolic opener tail, content and ending",
    "h_ev_mut1": "document 1, one deletion, 0..=2 insertions, every position", "h_ev_mut2": "document 2, likewise", "h_ev_mutu": "document 2 with 2 bytes of any UTF-8 inserted at every position",
})

prop("P01", "Tokenization is lossless and total",
     "For every source text the tokens are non-overlapping, adjacent and in order, each token's text is exactly the source at its span, and together they cover every byte before a single end-of-input token at the end of the text. Tokenizing never panics and always terminates, on malformed, unterminated and non-ASCII input alike.",
     "all UTF-8 source texts", WHY, [TOK], [("token stream", TOK + " Tokenizer::next_token")], "core",
     ["h_tok_u4", "h_tok_u5", "h_tok_s7", "h_tok_raw", "h_tok_heredoc", "h_tok_heredoc_u"], ["h_tok_u6@900"], covers={"*": [0]})
prop("P02", "The event stream is total, well nested and carries true spans",
     "For every source text event parsing terminates without panicking and yields one document whose objects, sequences, tags and entries are properly opened and closed. Every event's span is a valid range of the source, and in an error-free document every entry is one key and one value, events come in source order, and the text at a scalar's, key's or comment's span reads as exactly that scalar, key or comment.",
     "all UTF-8 source texts, document and expression mode", WHY, [PAR, LEX], [("events", PAR + " Parser::next_event")], "core",
     ["h_ev_u3", "h_ev_u4", "h_ev_s5", "h_ev_x4", "h_ev_x2", "h_ev_heredoc", "h_ev_mut1", "h_ev_mut2", "h_ev_mutu"], ["h_ev_esc"])
prop("P03", "A document means what the grammar says",
     "A document is accepted exactly if it conforms to the Styx grammar, and then its tree has exactly the entries, keys, values, tags, sequences, nested objects and attribute objects the text spells, in order, with each scalar's text and quoting kind. Separators (newlines, commas), whitespace and an explicit root object do not change that meaning.",
     "all source texts", WHY, [TOK, LEX, PAR, BLD, "docs/content/reference/spec/parser.md"], [("tree", "crates/styx-tree/src/lib.rs parse")], "core",
     ["h_doc_u3", "h_doc_u4", "h_doc_s5", "h_doc_tag", "h_doc_chain", "h_doc_attr", "h_doc_obj", "h_doc_seq", "h_doc_mut1", "h_doc_mut2", "h_doc_mutu", "h_doc_chains", "h_doc_ws"], ["h_doc_s6@900", "h_doc_esc", "h_doc_heredoc", "h_doc_raw", "h_doc_comment"])
prop("P04", "Quoted and raw scalars denote exactly the text they spell",
     "In a quoted scalar every escape (\\\\, \\\", \\n, \\r, \\t, \\uXXXX, \\u{X...}) denotes exactly its character, everything else denotes itself, and any other escape, a non-scalar code point or a missing closing quote is an error and never a silently different value. A raw scalar denotes exactly the characters between its delimiters, for any number of hashes, and ends only at a quote followed by as many hashes.",
     "all contents of quoted and raw scalars, as keys, values, elements and tag payloads", WHY, [LEX, TOK, PAR], [("escapes", LEX + " process_escapes"), ("raw", TOK + " tokenize_raw_string")], "core",
     ["h_doc_esc", "h_doc_uni", "h_doc_raw", "h_doc_rawlong", "h_doc_qu", "h_doc_qpos"], ["h_ev_esc"])
prop("P05", "Heredocs denote exactly their lines, dedented by the closing indent",
     "A heredoc's value is exactly the lines between its opening line and the first later line consisting of the (possibly indented) delimiter, each with at most the closing line's indentation removed; language hints do not affect it. Delimiters longer than 16 characters, lines that merely start with the delimiter and missing closing lines are treated as the specification says, under LF and CRLF.",
     "all heredoc openings, contents and closing lines", WHY, [TOK, LEX], [("heredoc", TOK + " tokenize_heredoc_content"), ("dedent", LEX + " dedent_heredoc")], "core",
     ["h_doc_heredoc", "h_doc_hdelim", "h_doc_hd2", "h_doc_hdlang"])
prop("P06", "Duplicate keys and reopened paths are always detected, and only those",
     "Two entries of one object whose keys have equal parsed values (tag, payload, unit; however they are quoted) are always an error, wherever they stand, and keys that differ in value never are. Dotted paths may extend only the path that is still open: repeating a path, reopening one closed by a sibling, or nesting into a value that is not an object is always an error, and contiguous sibling paths never are.",
     "all sequences of entries", WHY + "; duplicates can be separated by any number of other entries", [PAR], [("path state", PAR + " PathState::check_and_update"), ("nested objects", PAR + " parse_object_atom"), ("attributes", PAR + " parse_attributes")], "core",
     ["h_doc_keys", "h_doc_paths", "h_doc_paths4", "h_doc_dup", "h_doc_dupattr", "h_doc_nested_dotted"], over=("inputs", "histories"))
prop("P07", "Comments never change a document; doc comments attach to the next entry",
     "Line comments are ignored wherever they may stand. Every doc comment's lines are attached, in order and without their marker, to the entry that follows them at the same level and to no other, and a doc comment with no following entry in its object is an error.",
     "all placements and texts of comments", WHY, [LEX, PAR, BLD], [("doc comments", PAR + " advance_document_root"), ("attachment", BLD + " TreeBuilder::event")], "core",
     ["h_doc_comment", "h_doc_docs", "h_doc_mut1", "h_doc_mut2"])

CST = "crates/styx-cst/src/parser.rs"
AST = "crates/styx-cst/src/ast.rs"
CF = "crates/styx-format/src/cst_format.rs"
VF = "crates/styx-format/src/value_format.rs"
WRI = "crates/styx-format/src/writer.rs"
SCA = "crates/styx-format/src/scalar.rs"
M1 = "a 120-byte document using every construct, one character deleted or kept and 0..=2 bytes over 19 characters inserted, at every position"
M2 = "a second such document with an explicit root and CRLF, likewise"
BOUNDS.update({
    "h_cst_u4": "all UTF-8 documents of 0..=4 bytes", "h_cst_s5": "all documents of 5 bytes over a 19-character structural alphabet", "h_cst_mut1": M1, "h_cst_mut2": M2,
    "h_view_s5": "all documents of 0..=5 bytes over 19 characters", "h_view_u": "4 contexts, 0..=3 bytes of UTF-8, 3 endings",
    "h_view_esc": "quoted scalars in 3 contexts: 0..=3 bytes over an escape alphabet, 3 escapes, 0..=2 bytes, 2 endings", "h_view_raw": "raw strings in 3 contexts: 0..=6 bytes over 4 characters",
    "h_view_mut1": M1, "h_view_mut2": M2,
    "h_fmt_u3": "all UTF-8 documents of 0..=3 bytes", "h_fmt_s4": "all documents of 0..=4 bytes over 19 characters", "h_fmt_s5": "the same, 5 bytes", "h_fmt_mut1": M1, "h_fmt_mut2": M2,
    "h_fmt_obj": "objects in 3 contexts: two items of 9 forms, separators of 8 forms, a symbolic byte, 3 endings", "h_fmt_seq": "sequences in 3 contexts: two elements of 13 forms, separators of 5 and 3 forms, 3 endings", "h_fmt_seq2": "the same with more separators and a symbolic byte", "h_fmt_docs": "the shapes of h_doc_docs", "h_fmt_attr": "the shapes of h_doc_attr", "h_fmt_tag": "the shapes of h_doc_tag",
    "h_fmt_m1": "document 1 with one character deleted or kept and 0..=1 byte over 19 characters inserted, at every position", "h_fmt_m2": "document 2 likewise", "h_cst_m1": "document 1 likewise", "h_cst_m2": "document 2 likewise",
    **{f"h_{a}_{b}": f"the shapes of h_doc_{b}" for a in ("cst", "view") for b in "docs tag attr obj seq heredoc chain comment".split()},
    "h_fmt_root": "root level: 5 first entries, item, separators, symbolic byte, 3 following entries", "h_fmt_nest": "nested objects and sequences: 3 openings, item, closings, separators, 3 followers, 0..=3 symbolic bytes",
    "h_fmt_comm": "comments in objects, sequences and at the root with symbolic blanks, separators and line ends around them", "h_fmt_u": "5 constructs holding 0..=2 bytes of UTF-8",
    "h_fmt_opt": "a nested document with one mutation, 3 indent styles",
    "h_wr_val3": "values of 0..=3 bytes of any UTF-8 in 5 positions, 3 styles", "h_wr_vals": "values of 0..=5 bytes over 15 characters in 5 positions, 3 styles",
    "h_wr_key3": "keys of 0..=3 bytes of any UTF-8, root and nested, with and without doc comment",
    "h_wr_re_s4": "trees of all documents of 0..=4 bytes over 19 characters, 3 styles", "h_wr_re_mut1": "trees of " + M1 + ", 3 styles", "h_wr_re_mut2": "trees of " + M2 + ", 3 styles",
    "h_wr_docs": "documented entries: docs of symbolic text and line structure, 4 keys, 4 values, 3 places, 4 shapes, 3 styles", "h_wr_built1": "the trees of h_wr_built around 0..=1 bytes",
    "h_wr_built": "trees of depth 3 built from 4 key forms, 6 value forms and 3 shapes around 0..=2 bytes of any UTF-8, 3 styles",
})
prop("P08", "The syntax tree is lossless and accepts every valid document",
     "For every source text the syntax tree's text is exactly the source, every node and token sits at its true offset, building, walking and validating it never panics, and no error is reported for a document the parser accepts.",
     "all UTF-8 source texts", WHY + "; the syntax tree has its own parser, so it can disagree with the event parser anywhere", [CST, AST, "crates/styx-cst/src/validation.rs"], [("tree", CST + " parse"), ("validation", "crates/styx-cst/src/validation.rs validate")], "core",
     ["h_cst_u4", "h_cst_m1", "h_cst_m2", "h_cst_docs", "h_cst_tag", "h_cst_seq", "h_cst_chain", "h_cst_comment"], ["h_cst_s5", "h_cst_mut1", "h_cst_mut2", "h_cst_attr", "h_cst_obj", "h_cst_heredoc"])
prop("P09", "The syntax tree's typed view reads the same document as the parser",
     "For every document the parser accepts, the entries, keys, values, tags and scalars reached through the syntax tree's typed accessors are those of the event parser, in order, and a scalar's decoded text is exactly the text the event parser reports for it.",
     "all valid source texts", WHY + "; two independent decoders of every scalar form must agree", [AST, CST], [("text_content", AST + " Scalar"), ("structure", AST)], "core",
     ["h_view_s5", "h_view_u", "h_view_esc", "h_view_raw", "h_view_mut1", "h_view_mut2", "h_view_docs", "h_view_tag", "h_view_seq", "h_view_chain", "h_view_comment"], ["h_view_attr", "h_view_obj", "h_view_heredoc"])
prop("P10", "Formatting changes only layout and is idempotent",
     "Formatting a source text never loses, adds, reorders or changes a scalar, tag, key or comment: only whitespace, line breaks and commas may differ, and a valid document stays valid and keeps its tree, doc comments included. Formatting its own output changes nothing, and text with syntax errors is returned unchanged.",
     "all source texts and formatting options", WHY + "; formatters break on combinations of comments, separators and nesting that no test lists", [CF], [("layout", CF + " format_source"), ("objects", CF + " format_object"), ("sequences", CF + " format_sequence")], "core",
     ["h_fmt_u3", "h_fmt_s4", "h_fmt_m1", "h_fmt_m2", "h_fmt_obj", "h_fmt_root", "h_fmt_comm", "h_fmt_u", "h_fmt_opt", "h_fmt_seq", "h_fmt_docs", "h_fmt_tag", "h_fmt_attrs"], ["h_fmt_mut1", "h_fmt_mut2", "h_fmt_seq2", "h_fmt_attr", "h_fmt_nest", "h_fmt_s5"])
prop("P11", "Any text can be written as a scalar or key and reads back",
     "Whatever text a program writes with the Styx writer, as a value, element, tag payload or key, at the root or nested, with any layout options, the output parses and yields exactly that text at exactly that place.",
     "all texts, positions and formatting options", "the choice between bare, quoted, raw and heredoc form depends on every character of the text; tests sample a few strings", [SCA, WRI], [("choice of form", WRI + " StyxWriter::write_scalar_string"), ("bare", SCA + " can_be_bare"), ("keys", WRI + " StyxWriter::field_key")], "core",
     ["h_wr_val3", "h_wr_vals", "h_wr_key3"])
prop("P12", "Writing a value tree and parsing it back yields the same tree",
     "For every value tree, parsed or built by a program, format_value's output parses and yields an equal tree: the same keys, values, tags, units, sequences, objects and doc comments in the same order; the braced form of an object does too.",
     "all value trees and formatting options", "tests write a few dozen trees; validity of the output depends on the interplay of tags, keys, separators, layout and scalar forms", [VF, WRI, SCA], [("value", VF + " ValueFormatter::format_value"), ("keys", VF + " format_key")], "core",
     ["h_wr_re_s4", "h_wr_re_mut1", "h_wr_re_mut2", "h_wr_docs", "h_wr_built1"], ["h_wr_built"])

FSER = "crates/facet-styx/src/serializer.rs"
FPAR = "crates/facet-styx/src/parser.rs"
BOUNDS.update({
    "h_rt_strs": "struct of strings and an optional string: 0..=3 bytes of any UTF-8 in every position; 4 output styles", "h_rt_colls": "sequences, nested sequences, maps with symbolic keys: 0..=2 bytes of any UTF-8; 3-4 shapes each; 4 output styles",
    "h_rt_ens": "enum values of 10 variant forms (unit, newtype, optional, tuple, struct, sequence, nested struct payload) as field, element, map value and optional value, 0..=1 byte of any UTF-8 in every payload; 4 output styles", "h_rt_ens2": "the same with 0..=2 bytes",
    "h_rt_none": "absent and present optional fields, elements, map values and payloads", "h_rt_deep": "nested structs, boxes, tuples, maps and lists of structs, 0..=2 bytes of any UTF-8; 4 output styles",
    "h_rt_nums": "every u8 and i8, boundary values of the other integer and float types", "h_rt_chars": "every Unicode scalar value as char and string",
})
prop("P13", "Typed values written with facet-styx read back equal",
     "For every value of a derived type (structs, options, lists, maps, tuples, enums of every variant form, numbers, characters, strings) writing it with facet-styx in any style yields a document that parses, and reading that document back as the same type yields an equal value.",
     "all values of the types and all writer styles", "tests write a few values per type; whether a written form is read back depends on the text, the position and the enclosing tags and separators together", [FSER, FPAR, WRI, SCA], [("writing", FSER + " StyxSerializer"), ("compact writing", FSER + " CompactStyxSerializer"), ("reading", FPAR + " StyxParser::convert_event")], "facet",
     ["h_rt_strs", "h_rt_colls", "h_rt_ens", "h_rt_none", "h_rt_deep", "h_rt_nums", "h_rt_chars", "h_rt_pays", "h_rt_defs", "h_rt_shapes"], ["h_rt_ens2@900"], covers={"*": [0]})

SV = "crates/facet-styx/src/schema_validate.rs"
BOUNDS.update({
    "h_sv_leaves": "8 leaf types (with and without limits) against missing, near-miss and other-shaped values with symbolic scalar texts", "h_sv_wrap1": "15 schema constructors around 8 leaf types; documents shaped like the schema with something amiss at any one place or nothing, symbolic scalars of 0..=2 characters",
    "h_sv_wrap2": "15x15 constructors around 3 leaf types, likewise", "h_sv_named": "named, aliased, deprecated, defaulted, recursive, self-referring and undefined types around 2 leaf types", "h_sv_named2": "recursive objects and unions, three levels of values",
    "h_sv_flatten": "8 forms of flattening (nested, aliased, repeated, of a non-object, with catch-all) against every subset of 5 fields", "h_sv_roots": "missing, non-object and named root types, validate and validate_as",
    "h_sv_ints": "integer texts: 5 prefixes and 0..=1 characters over 15 against 0..=2 of 7 limits", "h_sv_wide": "integers around the limits of the machine types", "h_sv_floats": "float texts: 10 prefixes and 0..=2 characters over 11",
    "h_sv_wrap2b": "15 constructors around 6 deprecated and optional types, and the values of h_sv_wrap1",
    "h_sv_lens": "ASCII strings of 0..=4 bytes against 5x5 length limits", "h_sv_pattern": "known finding", "h_sv_literal": "known finding",
})
prop("P14", "Validation accepts exactly the documents a schema describes",
     "For every schema and document, validation accepts the document exactly if it conforms to the schema: types, numeric syntax and limits, lengths, required and unknown fields, catch-alls, flattening, maps, tuples, unions, enums, optional, default, deprecated, one-of and named (recursive) types. Each reported error carries the path of an offending place and its kind, every deprecated field present is warned about, and no schema or document makes validation panic or loop.",
     "all schemas and documents", "tests validate a few documents per constructor; verdict, path and kind depend on the combination of constructors, limits and values", [SV, "crates/facet-styx/src/schema_types.rs"], [("verdict", SV + " Validator::validate_value"), ("objects", SV + " validate_object"), ("enums", SV + " validate_enum")], "facet",
     ["h_sv_leaves", "h_sv_wrap1", "h_sv_wrap2b", "h_sv_named", "h_sv_flatten", "h_sv_roots", "h_sv_ints", "h_sv_wide", "h_sv_limits", "h_sv_floats", "h_sv_lens", "h_sv_pattern", "h_sv_literal"], ["h_sv_wrap2@900", "h_sv_named2"], covers={"*": [0], "h_sv_leaves": [0, 1], "h_sv_wrap1": [0, 1], "h_sv_literal": []})

SG = "crates/facet-styx/src/schema_gen.rs"
BOUNDS.update({
    "h_rt_pays": "enum payloads: newtypes, unit structs, tuples, tuple structs, maps, lists, structs, wide integers, with and without numbers that look like text; 4 output styles", "h_rt_shapes": "flattened structs, options and maps, generic and recursive types, renamed and defaulted fields, results, arrays, sets, with symbolic strings of 0..=1 bytes; 4 output styles",
    "h_sg_strs": "the values of h_rt_strs with strings of 0..=2 bytes", "h_sg_colls": "the values of h_rt_colls with strings of 0..=1 bytes", "h_sg_ens": "the values of h_rt_ens with empty strings", "h_sg_nones": "the values of h_rt_none",
    "h_sg_deep": "the values of h_rt_deep", "h_sg_nums": "the finite values of h_rt_nums", "h_sg_chars": "the values of h_rt_chars", "h_sg_pays": "the values of h_rt_pays", "h_sg_shapes": "the values of h_rt_shapes",
})
prop("P15", "A schema generated from a type accepts the type's values as written",
     "For every derived type, the schema generated from it is a schema file that can be read, and every value of the type (finite numbers) written with facet-styx validates against it, both as read and as generated.",
     "all values of the types", "tests compare generated schema texts; that they agree with what the serializer writes for every value is never checked", [SG, SV, FSER], [("generation", SG + " SchemaGenerator"), ("validation", SV + " Validator::validate_value")], "facet",
     ["h_sg_strs", "h_sg_colls", "h_sg_nones", "h_sg_deep", "h_sg_nums", "h_sg_chars", "h_sg_pays", "h_sg_defs", "h_sg_shapes", "h_sg_ens"], [], covers={"*": [0]})

SDE = "crates/serde_styx/src/de.rs"
SSE = "crates/serde_styx/src/ser.rs"
BOUNDS.update({
    "h_sd_strs": "the values of h_rt_strs with strings of 0..=3 bytes, in the 4 output styles, likewise below", "h_sd_colls": "the values of h_rt_colls with strings of 0..=2 bytes", "h_sd_ens": "the values of h_rt_ens", "h_sd_nones": "the values of h_rt_none", "h_sd_deep": "the values of h_rt_deep",
    "h_sd_nums": "the values of h_rt_nums", "h_sd_chars": "the values of h_rt_chars", "h_sd_pays": "the values of h_rt_pays (newtype and unit structs, which the data models treat differently, are only read back)", "h_sd_shapes": "the values of h_rt_shapes (those with a Result are only read back; flattened strings have no digits, because serde buffers flattened fields as numbers)",
})
prop("P16", "serde_styx writes what facet-styx writes, and reads it back equal",
     "For every value of a type with both derives, serde_styx and facet-styx write the same text in every style (newtype structs, unit structs and Result aside, which the two data models treat differently), and serde_styx reads what it writes back as an equal value.",
     "all values of the types and all writer styles", "the compatibility tests compare a few flat structs; enums, heredocs, keys and nesting are never compared", [SSE, SDE, FSER, WRI], [("writing", SSE + " Serializer"), ("reading", SDE + " Deserializer"), ("compact writing", SSE + " CompactSerializer")], "serde",
     ["h_sd_strs", "h_sd_colls", "h_sd_ens", "h_sd_nones", "h_sd_deep", "h_sd_nums", "h_sd_chars", "h_sd_pays", "h_sd_defs", "h_sd_shapes"], [], covers={"*": [0]})

BOUNDS.update({
    "h_rd_s4": "`a ` and 0..=4 characters over 18, as 13 types (numbers, text, options, lists, tuples, maps, structs, enums of 7 variant forms), by serde_styx", "h_rf_s3": "the same with 0..=3 characters by facet-styx", "h_rf_s4": "the same with 0..=4 characters by facet-styx",
    "h_rd_mut": "17 documents of the types with up to one character removed and up to one of 16 inserted anywhere, by serde_styx", "h_rd_mut2": "the same with up to two inserted", "h_rf_mut": "the same with up to one inserted, by facet-styx", "h_rf_mut2": "the same with up to two inserted, by facet-styx", "h_rd_empty": "nearly empty documents, by both",
})
prop("P17", "Typed reading yields what the document means, or fails",
     "For every document and type, from_str of serde_styx and of facet-styx yields exactly the value the document's tree denotes for the type (fields by name, missing optional and defaulted fields filled in, tags as variants, scalar texts as numbers in range, flags, characters or strings). It fails if the document is invalid or its tree denotes no value of the type; it never yields another value.",
     "all documents and types", "tests read well-formed documents; which value a document with attributes, dotted paths, implicit units, heredocs or a misplaced character yields is not examined", [SDE, FPAR, PAR], [("serde_styx", SDE + " Deserializer"), ("facet-styx", FPAR + " StyxParser::convert_event")], "serde",
     ["h_rd_s4", "h_rd_mut", "h_rd_empty", "h_rf_s3", "h_rf_mut"], ["h_rf_s4@900", "h_rd_mut2@900", "h_rf_mut2@900"], covers={"*": [0, 1]})

VAL = "crates/styx-tree/src/value.rs"
FFI = "crates/styx-ffi/src/lib.rs"
BOUNDS.update({
    "h_api_path5": "paths of 0..=5 characters over 7 (keys, dots, brackets, digits) into a fixed tree of nested objects and sequences", "h_api_path6": "paths of 6 characters likewise",
    "h_api_pathx": "6 beginnings, 0..=2 characters over 14, 4 endings", "h_api_pathu": "4 beginnings, 0..=2 bytes of any UTF-8, 3 endings",
    "h_api_walk_s4": "every value of all documents of 0..=4 bytes over a 19-character structural alphabet", "h_api_walk_m": "every value of a document with every construct, one character deleted or kept and 0..=1 inserted at every position",
    "h_api_ops": "histories of 0..=3 insertions, overwritings and lookups of symbolic one-character and empty keys and of the unit key on 3 objects",
    "h_ffi_s4": "all documents of 0..=4 bytes over 19 characters", "h_ffi_u": "scalars in 5 contexts holding 0..=2 bytes of any UTF-8", "h_ffi_raw": "all sequences of 0..=3 non-zero bytes, UTF-8 or not",
    "h_ffi_m": "the mutations of h_api_walk_m", "h_ffi_path": "paths of 0..=4 characters over 7 from the document and every value; null arguments", "h_ffi_nul": "known finding",
})
prop("P18", "Lookups and edits reach exactly the value they name, from Rust and C",
     "In every tree a path of keys and [n] indices leads, in Value, Document and the C API alike, to exactly the value standing there or to none; malformed paths never panic; Object's insertions and mutable lookups change exactly the named entry and keep all others in order. The C API reports for every source what the Rust API does - error or document, kinds, tags, texts, lengths, items - and answers null, zero or false to null arguments and indices out of range.",
     "all documents, paths and histories of edits", "tests look up a few fixed paths; the C bindings have no tests", [VAL, "crates/styx-tree/src/lib.rs", FFI], [("paths", VAL + " Value::get, split_path"), ("edits", VAL + " Object::insert"), ("C API", FFI)], "api",
     ["h_api_path5", "h_api_pathx", "h_api_pathu", "h_api_walk_s4", "h_api_walk_m", "h_api_ops", "h_ffi_s4", "h_ffi_u", "h_ffi_raw", "h_ffi_m", "h_ffi_path", "h_ffi_nul"], ["h_api_path6"], over=("inputs", "histories"),
     covers={k: [0] for k in "h_api_path5 h_api_pathx h_api_pathu h_api_walk_s4 h_api_walk_m h_api_ops h_ffi_s4 h_ffi_u h_ffi_raw h_ffi_m h_ffi_path".split()})

EMB = "crates/styx-embed/src/lib.rs"
BOUNDS.update({
    "h_emb_round": "schemas of 0..=4 bytes of any UTF-8 after 0..=3 other bytes, blob versions 1 and 2, 4 endings, as bytes and as a file of no known format", "h_emb_long": "4 texts (empty, compressible, repetitive, with NUL) followed by 0..=2 bytes of any UTF-8",
    "h_emb_many": "two blobs of 3 forms and 4 texts or a broken marker with a symbolic byte", "h_emb_corrupt": "3 texts in both versions with any one byte replaced by any value", "h_emb_trunc": "4 texts in both versions cut anywhere",
    "h_emb_any": "a marker after 0..=1 bytes, 3 counts, symbolic and extreme sizes, 5 lengths of what follows with symbolic bytes in it", "h_emb_heads": "6 object file magics followed by 0..=2 symbolic bytes, 3 file lengths", "h_emb_heads3": "the same with 0..=3 bytes",
    **{f"h_emb_{k}": f"{n} files with a schema section whose offset and size are right, off by one, or any values from 4096 (low 32 bits) up" for k, n in (("elf", "ELF64"), ("macho", "Mach-O 64"), ("pe", "PE"))},
})
prop("P19", "Embedded schemas come back exactly, and only intact ones",
     "Whatever schemas are embedded in a file, in whichever blob version and between whatever other bytes, extraction returns exactly them. On any other file, damaged or truncated blobs and object headers with arbitrary offsets and sizes included, it never panics, never allocates what the file merely claims, and never returns another text.",
     "all schemas, surrounding bytes and damages", "tests extract a handful of intact blobs; damage can hit any byte", [EMB], [("blobs", EMB + " extract_schemas"), ("sections", EMB + " extract_schemas_from_object")], "api",
     ["h_emb_round", "h_emb_long", "h_emb_many", "h_emb_corrupt", "h_emb_trunc", "h_emb_any", "h_emb_elf", "h_emb_macho", "h_emb_pe", "h_emb_heads"], ["h_emb_heads3"], over=("inputs",),
     covers={"*": [0]})

SRV = "crates/styx-lsp/src/server.rs"
SEM = "crates/styx-lsp/src/semantic_tokens.rs"
LSV = "crates/styx-lsp/src/schema_validation.rs"
_b = {"1": "a document of nested sequences, tags, attributes, raw strings and comments with characters of 1 to 4 bytes and both line ends", "2": "a document with a heredoc, a schema declaration, documentation and CR LF line ends",
      "3": "a document of nested, empty, one-line and dotted objects with comments", "4": "a document in braces", "5": "a document of nested and dotted objects and schema declarations"}
_one = ", up to two characters removed and one of 22 pieces inserted anywhere"
_ins = ", one of 22 pieces inserted anywhere"
BOUNDS.update({
    "h_pos_free": "every boundary of all texts of 0..=4 bytes of any UTF-8 (lone CR excluded, likewise below)", "h_pos_free6": "likewise 0..=6 bytes", "h_pos_uni": "every boundary of texts of 3 pieces over 9 (characters of 1 to 4 bytes, both line ends)", "h_pos_uni5": "likewise 5 pieces",
    "h_off_free": "lines 0..=3 and columns 0..=6 in all texts of 0..=4 bytes of any UTF-8", "h_off_uni": "lines 0..=3 and columns 0..=6 in texts of 4 pieces over 9", "h_pos_any": "all offsets up to 2 past the end, boundaries or not, of texts of 0..=4 bytes of any UTF-8",
    "h_word_free": "every boundary of all texts of 0..=4 bytes of any UTF-8", "h_word_uni": "every boundary of texts of 4 pieces over 9",
    "h_hl_free": "all texts of 0..=3 bytes of any UTF-8", "h_hl_s4": "all texts of 0..=4 characters over 15", "h_hl_s5": "all texts of 0..=5 characters over 15",
    **{f"h_hl_one{k}": _b[k] + _one for k in "12"}, **{f"h_hl_any{k}": _b[k] + ", up to one character removed and 0..=2 bytes of any UTF-8 inserted anywhere" for k in "12"}, **{f"h_hl_two{k}": _b[k] + ", up to one character removed and two of 22 pieces inserted anywhere" for k in "12"},
    "h_out_s5": "all texts of 0..=5 characters over 10", **{f"h_out_one{k}": _b[k] + _one for k in "125"}, "h_out_any5": _b["5"] + ", up to one character removed and 0..=2 bytes of any UTF-8 inserted anywhere",
    "h_fmte_s4": "all texts of 0..=4 characters over 15", **{f"h_fmte_one{k}": _b[k] + _one for k in "12"},
    "h_fill_s4": "1 to 3 fields filled in at every offset of all documents of 0..=4 characters over 14", "h_fill_s5": "likewise 0..=5 characters", **{f"h_fill_ins{k}": "3 fields filled in in every object of " + _b[k] + _ins for k in "1234"}, "h_fill_any3": "3 fields filled in in every object of " + _b["3"] + ", up to one character removed and 0..=2 bytes of any UTF-8 inserted anywhere", **{f"h_fill_one{k}": "3 fields filled in in every object of " + _b[k] + _one for k in "34"},
    "h_line_s5": "lines 0..=4 of all documents of 0..=5 characters over 8", **{f"h_line_ins{k}": "lines 0..=4 of " + _b[k] + _ins for k in "123"}, **{f"h_line_one{k}": "lines 0..=4 of " + _b[k] + _one for k in "12"},
    "h_nest_s5": "every offset of all texts of 0..=5 characters over 7", "h_nest_s7": "likewise 0..=7 characters", "h_nest_ins3": "every offset of " + _b["3"] + _ins,
    "h_spell_key": "field names of 0..=3 bytes of any UTF-8", "h_spell_key4": "field names of 0..=4 bytes of any UTF-8", "h_spell_lit": "literals of 0..=3 bytes of any UTF-8", "h_spell_type": "17 types within up to two of 16 constructors",
})
prop("P20", "Editor positions and highlighting point at exactly the right text",
     "For every text, offsets and the editor's positions (lines, UTF-16 columns) convert exactly in both directions, whatever position the editor sends. Semantic tokens and highlight spans cover every scalar, tag and comment of a well-formed document and nothing else, in order, without overlap, each within a line and classified by its role; outline symbols, key and schema ranges and the word before the cursor are exactly the text they stand for; the formatting edit turns the text into the formatted text.",
     "all texts, offsets and positions", "tests use short ASCII documents; columns differ between bytes, characters and UTF-16 only in others", [SRV, SEM, "crates/styx-lsp-ext/src/lib.rs"], [("positions", SRV + " offset_to_position, position_to_offset"), ("tokens", SEM + " compute_semantic_tokens"), ("outline", SRV + " collect_document_symbols"), ("formatting", SRV + " format_edit")], "lsp",
     ["h_pos_free", "h_pos_uni", "h_off_free", "h_off_uni", "h_pos_any", "h_word_free", "h_word_uni", "h_hl_free", "h_hl_s4", "h_hl_one1", "h_hl_one2", "h_hl_any1", "h_hl_any2", "h_out_s5", "h_out_decl", "h_out_one1", "h_out_one2", "h_out_one5", "h_out_any5", "h_fmte_s4", "h_fmte_one1", "h_fmte_one2"],
     ["h_pos_free6", "h_pos_uni5", "h_hl_s5@900", "h_hl_two1@900", "h_hl_two2@900"], covers={**{k: [0] for k in "h_hl_free h_hl_s4 h_hl_one1 h_hl_one2 h_hl_any1 h_hl_any2".split()}, **{k: [1] for k in "h_out_s5 h_out_decl h_out_one1 h_out_one2 h_out_one5 h_out_any5".split()}})
prop("P21", "Edits offered by the language server change only what they say",
     "Filling in missing fields at any place of any document adds exactly these fields, with their names and values, to the object there: the result is read without new errors and everything else, comments and documentation included, is as before. Indenting a line as it is begun changes no value and indents by the objects and sequences around it; field names and placeholders are spelled so that they are read back as themselves, and placeholders conform to their type (an object's placeholder has no fields).",
     "all documents, cursor positions and field names", "tests never apply the edits the server offers", [SRV, LSV], [("insertion", SRV + " find_field_insert_position, insert_fields_edit"), ("indentation", SRV + " newline_edit, find_nesting_depth_cst"), ("placeholders", LSV + " generate_placeholder")], "lsp",
     ["h_fill_s4", "h_fill_ins1", "h_fill_ins2", "h_fill_ins3", "h_fill_ins4", "h_line_s5", "h_line_ins1", "h_line_ins2", "h_line_ins3", "h_nest_s5", "h_nest_ins3", "h_spell_key", "h_spell_lit", "h_spell_type"],
     ["h_fill_s5@900", "h_fill_any3@900", "h_fill_one3@900", "h_fill_one4@900", "h_line_one1", "h_line_one2", "h_nest_s7", "h_spell_key4"], covers={**{k: [0, 1] for k in "h_fill_s4 h_fill_ins1 h_fill_ins2 h_fill_ins3 h_fill_ins4".split()}, **{k: [2] for k in "h_line_s5 h_line_ins1 h_line_ins2 h_line_ins3".split()}, "h_nest_s5": [3], "h_nest_ins3": [3]})

CLI = "crates/styx-cli/src/main.rs"
WSM = "crates/styx-wasm/src/lib.rs"
_c = {"1": "a document of tags, sequences, sibling paths, attributes, raw strings and comments", "2": "a document with a schema declaration, a heredoc, tagged keys and units", "3": "a document with two schema declarations"}
_c1 = ", up to two characters removed and one of 23 pieces inserted anywhere"
_c2 = ", up to one character removed and two of 23 pieces inserted anywhere"
BOUNDS.update({
    "h_json_s5": "all documents of 0..=5 characters over 13", "h_wasm_s5": "all documents of 0..=5 characters over 12", "h_col_s5": "all texts of 0..=5 characters over 15", "h_col_free": "all texts of 0..=3 bytes of any UTF-8 without ESC",
    **{f"h_{w}_one{k}": _c[k] + _c1 for w, ks in (("json", "12"), ("wasm", "12"), ("col", "12"), ("decl", "23")) for k in ks}, **{f"h_{w}_two{k}": _c[k] + _c2 for w, ks in (("json", "12"), ("wasm", "12"), ("col", "1"), ("decl", "3")) for k in ks},
    "h_scalar": "scalars of 10 beginnings and 0..=2 characters over 12", "h_scalar_big": "4 signs, 4 numbers about the limits of 64 bits, 0..=2 characters over 8",
    "h_back_tree": "JSON trees of depth 2: nulls, flags, 4 numbers, 3 texts, arrays, objects, tags with 8 names and 2 payload depths, objects that only look like tags", "h_back_word": "likewise of depth 1 with 21 texts", "h_back_root": "likewise as the whole document", "h_back_text": "two texts of 0..=2 bytes of any UTF-8 as key, value and element",
    "h_diff_field": "26 x 26 types of a field, 17 documents and one with a symbolic value of 2 characters", "h_diff_wrap": "9 constructors around 8 types, twice; 17 documents", "h_diff_named": "7 roots around 7 named types, twice; 14 documents", "h_diff_two": "objects of up to two of 11 entries, twice; 17 documents", "h_diff_wrap2": "likewise within one of 9 further constructors; 20 documents", "h_ver8": "versions of 0..=8 characters over 6, 3 kinds of change", "h_ver": "versions of 0..=6 characters over 7, 3 kinds of change",
})
prop("P22", "JSON, browser and terminal output lose nothing of a document",
     "The JSON the command line prints and the value the browser bindings return show every entry, item, tag and text of a document exactly once, sibling paths merged, with a text shown as number, flag or null only if it spells exactly that. JSON given to the browser bindings becomes a valid document that is converted back to the same JSON. Coloured output without its colour codes is the source, and the schema a document declares is found, and nothing else removed with it.",
     "all documents and all JSON values", "tests convert a handful of documents; what is lost depends on key forms, sibling paths, tags and number ranges", [CLI, WSM], [("JSON", CLI + " value_to_json, object_to_json"), ("colours", CLI + " highlight_styx"), ("declaration", CLI + " find_schema_declaration, strip_schema_declaration"), ("browser", WSM + " value_to_json, json_to_value")], "cli",
     ["h_json_s5", "h_json_one1", "h_json_one2", "h_wasm_s5", "h_wasm_one1", "h_wasm_one2", "h_scalar", "h_scalar_big", "h_back_tree", "h_back_word", "h_back_root", "h_back_text", "h_col_s5", "h_col_free", "h_col_one1", "h_col_one2", "h_decl_one2", "h_decl_one3"],
     ["h_json_two1", "h_json_two2", "h_wasm_two1", "h_wasm_two2", "h_col_two1", "h_decl_two3"], covers={**{k: [3] for k in "h_json_s5 h_wasm_s5".split()}, **{k: [0, 1, 2, 3] for k in "h_json_one1 h_wasm_one1".split()}, **{k: [0, 1, 3] for k in "h_json_one2 h_wasm_one2".split()}, **{k: [0] for k in "h_back_tree h_back_word h_back_root h_back_text h_col_s5 h_col_free h_col_one1 h_col_one2 h_decl_one2 h_decl_one3".split()}})
prop("P23", "A schema change that can reject old documents is reported as breaking",
     "If a new version of a schema rejects any document its predecessor accepts, the comparison reports a breaking change; if it only accepts more, at least an addition; between equal schemas, nothing. The version proposed for publication is the predecessor's, incremented as these changes demand, and no version is proposed from one that is malformed.",
     "all pairs of schemas and documents", "tests do not compare the reported changes with what the two schemas accept", [CLI, SV], [("comparison", CLI + " compare_schemas, compare_type_definitions"), ("version", CLI + " calculate_next_version"), ("acceptance", SV + " Validator::validate_value")], "cli",
     ["h_diff_field", "h_diff_wrap", "h_diff_named", "h_diff_two", "h_ver"], ["h_diff_wrap2@900", "h_ver8@900"], over=("inputs",), covers={**{k: [0, 1, 2] for k in "h_diff_field h_diff_wrap h_diff_named h_diff_two h_ver".split()}})

DIA = "crates/styx-tree/src/diagnostic.rs"
_d = "a document of every construct with characters of 1 to 2 bytes and both line ends"
_db = "a document with seven errors and characters of 1 and 2 bytes"
_dv = "a document for a schema of 11 types, one character deleted or kept and "
BOUNDS.update({
    "h_err_u3": "all UTF-8 documents of 0..=3 bytes", "h_err_s5": "all documents of 0..=5 characters over 19", "h_err_mut1": _d + ", one character deleted or kept and 0..=2 characters over 19 inserted anywhere", "h_err_mut2": _db + ", one character deleted or kept and 0..=1 over 19 inserted anywhere",
    "h_ren_u2": "all UTF-8 documents of 0..=2 bytes", "h_ren_s3": "all documents of 3 characters over 19", "h_ren_m1": _d + ", one character deleted or kept and 0..=1 over 8 inserted anywhere", "h_ren_m2": _db + ", one of 7 pieces inserted anywhere", "h_ren_u": "5 beginnings with characters of 1 to 4 bytes, 0..=2 bytes of any UTF-8, 3 endings",
    "h_val_m": _dv + "0..=1 over 19 inserted anywhere", "h_val_r": _dv + "one of 5 pieces inserted anywhere, reports included", "h_de_s4": "`n ` followed by 3 characters over 19, read as a struct", "h_de_m": "a document of five entries, one character deleted or kept and one of 8 pieces inserted anywhere, read as a struct",
})
prop("P24", "Diagnostics point at what is wrong, however they are shown",
     "Every error and warning of parsing, validation and typed reading has a place that is a valid range of the source and is what its kind names: the escape, the comma, the unclosed delimiter, the doc comment, the repeated key (with the first key of equal value), the path, the value or key that does not conform; a document's reported error is its first. A diagnostic rendered against its source never panics, names the line and column (in characters) of that place, and marks exactly its text, whatever characters the source contains.",
     "all documents with errors, typed targets and a schema", "snapshot tests render a dozen ASCII documents; places in bytes and columns in characters differ only in others", [DIA, PAR, "crates/facet-styx/src/schema_error.rs", "crates/facet-styx/src/error.rs"], [("reports", DIA + " ParseError::build_report"), ("places", PAR + " Parser::next_event"), ("validation", "crates/facet-styx/src/schema_error.rs ValidationError::build_report"), ("reading", "crates/facet-styx/src/error.rs RenderError")], "diag",
     ["h_err_u3", "h_err_mut1", "h_err_mut2", "h_ren_u2", "h_ren_s3", "h_ren_m1", "h_ren_m2", "h_ren_u", "h_val_m", "h_val_r", "h_de_s4", "h_de_m"], ["h_err_s5"],
     covers={"h_err_mut1": [0, 1], "h_err_mut2": [0, 1], "h_ren_m1": [2], "h_ren_m2": [2, 3], "h_ren_u": [2], "h_val_m": [0, 1, 2, 3], "h_val_r": [0, 1, 2, 3], "h_de_m": [2, 4, 5]})

BOUNDS.update({
    "h_rt_defs": "structs whose fields have defaults (lists, maps keyed by characters and numbers, tuples, scalars), 3 fillings, 0..=2 bytes of any UTF-8, 4 styles", "h_sg_defs": "the values of h_rt_defs", "h_sd_defs": "the values of h_rt_defs", "h_sv_limits": "numbers of up to 4 characters against limits of 5 kinds on either side, as float and integer",
    "h_fmt_attrs": "two attributes of 10 forms of values with 5 separators, a symbolic character and 6 endings, in 5 contexts", "h_out_decl": "schema declarations of 6 forms after entries that resemble them",
    "h_sch_wraps": "all schemas of two of 15 constructors around 8 leaves, 4 styles, likewise below", "h_sch_texts": "0..=2 bytes of any UTF-8 as a name, tag payload, pattern, reason, default or allowed value", "h_sch_metas": "8 heads of a file with 0..=1 bytes in two places, 4 import blocks, 3 sets of types",
    "h_sch_doced": "0..=2 lines of documentation on every field, variant, catch-all and type of 5 schemas", "h_sch_doc_text": "documentation of 0..=2 bytes of any UTF-8 among up to three lines, 3 forms of keys", "h_sch_bounds": "30 constraint values at the limits of their types",
    "h_sch_mutated": "a schema file of all key forms, up to one character removed and up to one of 19 inserted anywhere", "h_sch_pieces": "the same file with one of 14 pieces inserted anywhere", "h_sch_mutated2": "the same with two characters inserted",
})
prop("P25", "A schema file written back means the same schema",
     "Whatever schema file can be read can be written, in every style, and what is written reads back as the same schema: the same head and imports, the same types, fields, variants and catch-alls under the same names and tags, with the same constraints, defaults, allowed values, reasons and documentation.",
     "all schema files and output styles", "tests round-trip a handful of schemas in one style; the writer has own code for documentation, tagged keys and raw values that depends on layout", [FSER, WRI, "crates/facet-styx/src/schema_types.rs"], [("keys and documentation", FSER + " StyxSerializer::emit_field_key"), ("layout", WRI + " StyxWriter::write_doc_comment_and_key"), ("raw values", FSER + " StyxSerializer::raw_scalar")], "facet",
     ["h_sch_wraps", "h_sch_texts", "h_sch_metas", "h_sch_doced", "h_sch_doc_text", "h_sch_bounds", "h_sch_mutated", "h_sch_pieces"], ["h_sch_mutated2@900"], covers={"*": [0]})

na("P26", "All implementations and editor grammars read the same documents",
   "The tree-sitter grammar, the Go, JavaScript, Python and Swift implementations and the editors' grammars accept the documents the Rust parser accepts and read the same entries from them.",
   "all documents", "they are compared on one shared corpus of examples", ["crates/tree-sitter-styx/grammar.js", "implementations/styx-go", "implementations/styx-js", "implementations/styx-py", "implementations/styx-swift"], [("grammar", "crates/tree-sitter-styx/grammar.js")],
   "the other implementations are in languages this engine (LLVM IR) cannot encode: tree-sitter's parser is generated tables (regenerated by a tool that is not installed), Go, JavaScript and Python have no IR here and the Swift compiler is not installed", over=("programs",))
na("P27", "The language server answers every request from the latest document",
   "However requests, edits and extension processes interleave, each answer of the language server is computed from the document as of the last edit before it, and an extension that fails or never answers delays nothing else.",
   "all interleavings of messages", "tests send one message at a time", ["crates/styx-lsp/src/server.rs", "crates/styx-lsp/src/extensions.rs"], [("messages", "crates/styx-lsp/src/server.rs LanguageServer")],
   "the server runs on tokio and tower-lsp: scheduler, sockets and child processes are system calls and atomics outside the engine's single-threaded semantics; what the handlers compute from a document is P20, P21 and P24", over=("schedules",))
na("P28", "The command line never damages the files it works on",
   "`styx` commands write only where they are told to, leave a file unchanged when they fail, and publish exactly the schema they compared.",
   "all invocations and file system states", "tests run a few commands on temporary files", ["crates/styx-cli/src/main.rs"], [("commands", "crates/styx-cli/src/main.rs")],
   "file system and network effects are system calls, which the engine does not model; the pure parts (conversion, comparison, highlighting) are P10, P22 and P23", over=("crash_points",))
na("P29", "Go code generated from a schema accepts the schema's documents",
   "For every schema the generated Go package compiles, and its types load every document that conforms to the schema and none that does not.",
   "all schemas and documents", "tests compare generated text for a few schemas", ["crates/styx-gen-go/src/lib.rs"], [("generation", "crates/styx-gen-go/src/lib.rs")],
   "the guarantee is about the meaning of the generated Go program, which only a Go semantics could decide; no encoding of Go is within reach here", over=("programs",))
na("P30", "Compile-time embedding embeds exactly the named schemas",
   "The macros of styx-embed-macros embed exactly the files, strings or types they name, or fail to compile.",
   "all invocations of the macros", "tests embed a few files", ["crates/styx-embed-macros/src/lib.rs"], [("macros", "crates/styx-embed-macros/src/lib.rs")],
   "procedural macros run inside the compiler on its token streams (proc_macro's bridge has no definition outside rustc); the blob format they write is P19", over=("programs",))
