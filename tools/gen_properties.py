#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["protox_parse::parse"], hook_needed=hook)))
LEX="protox-parse/src/lex/mod.rs"; PAR="protox-parse/src/parse/mod.rs"; GEN="protox-parse/src/generate/mod.rs"
LIN="protox-parse/src/generate/lines.rs"; AST="protox-parse/src/ast/mod.rs"; ERR="protox-parse/src/error.rs"
COM="protox-parse/src/parse/comments.rs"; CASE="protox-parse/src/case.rs"; TAG="protox-parse/src/tag.rs"; LIB="protox-parse/src/lib.rs"
CMP="protox/src/compile/mod.rs"; INC="protox/src/file/include.rs"; FIL="protox/src/file/mod.rs"; CHA="protox/src/file/chain.rs"
DSR="protox/src/file/descriptor_set.rs"; GOO="protox/src/file/google.rs"; XER="protox/src/error.rs"

p("C01","Parsing any source text returns a result and never panics",
  "For every source string (any UTF-8 text, well-formed protobuf or not), protox_parse::parse returns either a descriptor or a parse error in finite time. It never panics, never trips an internal assertion or arithmetic overflow, and never fails to return.",
  ["inputs"],"every UTF-8 source string",
  "The unit tests run fixed inputs and one unseeded proptest drives only the lexer; panics hide behind rare byte sequences (unterminated comments, escapes next to multi-byte characters, errors at end of file).",
  [LEX,PAR,GEN,LIN,ERR,LIB],[("lexer callbacks recover from malformed tokens",LEX),("parser error recovery (skip_until, peek/bump discipline)",PAR),("index_to_i32 guarded by MAX_FILE_LEN",LIB)])
p("C02","Parse errors name the file and point inside the source",
  "Every error returned by protox_parse::parse reports the file name it was given and has a non-empty message. Its span, when present, satisfies start <= end <= source length with both ends on character boundaries, its Debug output begins with file:line:column of that span (1-based), and every label it exposes as a miette diagnostic also lies inside the source.",
  ["inputs"],"every rejected source string and every file name",
  "Tests assert spans of a handful of errors in ASCII sources; spans are computed by index arithmetic over arbitrary text.",
  [ERR,LEX,PAR],[("span arithmetic in int()/string()/block_comment()",LEX),("ParseError::span / Debug",ERR)],observe=["ParseError::file","ParseError::span","Debug for ParseError","miette::Diagnostic::labels"])
p("C03","Integer literals have exactly their written value or are rejected",
  "Wherever an integer literal is accepted, the value used is exactly the mathematical value of the literal (decimal, 0-prefixed octal, 0x-prefixed hexadecimal); a literal greater than 2^64-1 is rejected, never wrapped or truncated. An integer literal (including 0) immediately followed by a letter or underscore is rejected.",
  ["inputs"],"every digit string in each of the three radices up to and beyond 64 bits, with any following character",
  "The overflow tests try three literals; value errors live in radix, prefix and boundary handling.",
  [LEX],[("Token::IntLiteral regexes and int()",LEX)])
p("C04","Message field numbers and ranges are stored exactly and bounded",
  "A field, extension, reserved or extension-range number in a message is accepted if and only if it is between 1 and 536870911, and is stored unchanged. Ranges are stored half-open: 'a' is [a,a+1), 'a to b' is [a,b+1), and 'a to max' ends at 536870912, or at 2147483647 when the message sets message_set_wire_format = true.",
  ["inputs"],"every integer literal (signed, any radix) in every number position, every combination of single, bounded and max ranges, with and without message_set_wire_format",
  "Tests sample a few numbers per position; the bound and the +1 must hold for every literal.",
  [GEN,AST,PAR],[("generate_message_number",GEN),("generate_message_reserved_range / generate_message_extension_range",GEN),("Int::as_i32",AST)])
p("C05","Enum numbers and reserved ranges are stored exactly as 32-bit values",
  "An enum value number or enum reserved-range bound is accepted if and only if it lies between -2^31 and 2^31-1, and is stored unchanged including its sign. Enum reserved ranges are stored inclusively at both ends: 'a' is [a,a], 'a to b' is [a,b] and 'a to max' ends at 2^31-1.",
  ["inputs"],"every signed integer literal in an enum value or enum reserved range",
  "Tests try the extrema only.",
  [GEN,AST],[("generate_enum_number / generate_enum_reserved_range",GEN),("Int::as_i32",AST)])
p("C06","String literals decode to exactly the bytes they denote",
  "A string literal decodes to the bytes protobuf defines for it: plain characters as UTF-8, simple escapes, one-to-two-digit hex and one-to-three-digit octal escapes as single bytes, \\u and \\U escapes as the UTF-8 of the code point; adjacent literals are concatenated in order. A literal containing a NUL, a raw newline, an invalid or out-of-range escape, or no closing quote of the kind that opened it is rejected.",
  ["inputs"],"every string literal body, both quote kinds, any number of adjacent literals",
  "Tests list a few literals; escape parsing has many byte-level boundaries (digit counts, maximal munch, values above 255, surrogates).",
  [LEX,PAR],[("string() and its Component sub-lexer",LEX),("parse_string concatenation",PAR)])
p("C07","Field defaults are type-checked and preserve their value",
  "A 'default' option is accepted only on singular proto2 scalar or named-type fields with a value of the field's type: integers within the type's range, 'true'/'false' for bool, string literals for string (valid UTF-8) and bytes, numbers, inf or nan for float and double. The resulting default_value string denotes exactly the written value: integers in decimal, floats that parse back to the same number, strings verbatim, bytes C-escaped so that unescaping gives back the same bytes, enum names verbatim (only identifiers on fields of a named type are judged); the option does not remain among the uninterpreted options.",
  ["inputs"],"every field type, label, syntax and every default value literal",
  "Tests sample a few values per type; range limits and byte escaping must hold for every value.",
  [GEN,AST],[("generate_field_default_value",GEN),("take_option",GEN),("Int::as_i32/as_i64/as_u32/as_u64, OptionValue::as_f64/as_bool",AST),("Display for ast::String",AST)])
p("C08","Source locations identify exactly the text of the element they describe",
  "In an accepted file, every location's path resolves to an element of the descriptor, locations are ordered by path, and each span is the zero-based line and byte column (3 numbers if on one line, else 4) of that element's source text: declarations span from their first to their last token, and name, number, type, label, range and option locations span exactly those tokens. Every declared element has a location. (The file's own span is only judged in files with at least one declaration.)",
  ["inputs"],"every accepted file: every declaration kind, nesting and layout (newlines, CRLF, indentation, multi-byte text)",
  "Snapshot tests fix locations for a few files and the line table for two strings; offsets depend on arbitrary layout.",
  [GEN,LIN,TAG,PAR],[("LineResolver::resolve_span",LIN),("Context::add_span/add_comments path stack",GEN),("path tag constants",TAG),("join_span in every parse_* function",PAR)])
p("C09","Comments are attached to the declaration protobuf rules assign them to",
  "Comments directly before a declaration with no blank line in between become its leading comment; earlier comments separated by blank lines become its detached leading comments, in order. A comment following a declaration on the same line, or on the next lines if followed by a blank line or the end of the block, becomes its trailing comment; no comment is duplicated, and comment text is what was written without the delimiters (with CRLF normalised and per-line leading asterisks removed in block comments).",
  ["inputs"],"every interleaving of declarations, comments of either kind, newlines and blank lines",
  "A few snapshots cover specific layouts; attachment is a state machine over arbitrary sequences of comments and newlines.",
  [COM,PAR,LEX],[("Comments state machine",COM),("Parser::peek / peek_skip_comments / bump",PAR),("line_comment/block_comment/normalize_newlines",LEX)],
  state=[dict(name="Comments",meaning="pending leading, trailing and detached comments",where=COM)],observe=["FileDescriptorProto.source_code_info"])
p("C10","Whitespace and comments between tokens never change the descriptor",
  "Replacing the whitespace or comments between any two tokens of a file by any other non-empty whitespace or comments leaves the outcome unchanged: it stays accepted with an identical descriptor apart from source_code_info, or stays rejected.",
  ["inputs"],"every token boundary of every declaration kind and every filler of blanks, newlines, line and block comments",
  "Tests use one layout per construct; the parser decides at each token position whether comments are skipped.",
  [PAR,LEX,COM],[("peek vs peek_skip_comments at each position",PAR),("logos skip pattern, comment tokens",LEX)])
p("C11","Labels, field kinds and syntax levels are accepted exactly where allowed",
  "proto2 fields and extensions outside oneofs and maps must have a label; proto3 rejects required fields, groups and defaults; oneof fields have no label and are not maps; map fields have no label, are not extensions and have an integral, bool or string key type; extensions are never required; a oneof has at least one field. Every combination these rules allow is accepted and every other one is rejected.",
  ["inputs","configurations"],"every combination of syntax, scope (message, oneof, extend), label, field kind and map key/value type",
  "Tests reject one or two examples per rule; the rules interact across hundreds of combinations.",
  [GEN,PAR],[("generate_field_label",GEN),("generate_field_descriptor kind/scope checks",GEN),("Proto3GroupField / EmptyOneof checks",GEN)])
p("C12","Field types, maps and groups produce the right descriptor entries",
  "Each scalar type keyword maps to its descriptor type and any other (possibly dotted) name is kept verbatim as type_name with no type. A map field becomes a repeated message field whose nested map_entry message is named by the CamelCased field name plus 'Entry' with fields key=1 and value=2 of the declared types; a group becomes a field with the lower-cased name plus a nested message with the group's name and body.",
  ["inputs"],"every type keyword and type name, every map key/value type, every legal field and group name, in message, oneof and extend scope",
  "Snapshots cover particular names; name conversion and type mapping range over all identifiers.",
  [GEN,PAR,AST,CASE],[("parse_field_type",PAR),("Ty::proto_ty",AST),("to_pascal_case",CASE),("FieldKind::Map/Group arms of generate_field_descriptor",GEN)])
p("C13","Oneof indexes are consistent and synthetic oneofs are unique and last",
  "Every oneof_index refers to the oneof the field was declared in; fields outside oneofs have none, except proto3 'optional' fields, which are marked proto3_optional and each refer to a synthetic oneof of their own. Declared oneofs come first, in source order, followed by the synthetic ones in field order, and no synthetic oneof name equals a field, oneof or other synthetic name of the same message.",
  ["inputs"],"every message mixing oneofs, plain fields, proto3 optional fields and any field names",
  "Snapshots contain few mixes of real and synthetic oneofs and no colliding names.",
  [GEN],[("real_oneof_count pre-sizing",GEN),("synthetic oneof generation",GEN),("generate_oneof_descriptor",GEN)])
p("C14","Declarations appear in the descriptor completely and in source order",
  "Every package, import, message, enum, service, method, extend, reserved and extension declaration of an accepted file appears in the descriptor exactly once, under its declaring scope, in source order within its kind, with names, type references and streaming flags as written. public_dependency and weak_dependency hold exactly the indexes of the imports so marked, and syntax is recorded exactly when the file declares proto3.",
  ["inputs"],"every sequence and nesting of declarations",
  "Snapshots fix a few files; interleavings of declaration kinds and nesting are unbounded.",
  [GEN,PAR],[("generate_file_descriptor / generate_message_body_descriptor",GEN),("parse_file / parse_message_body / parse_service_rpc / parse_import",PAR)])
p("C15","Options keep their exact name parts and value",
  "Every option other than a field's 'default' and 'json_name' becomes one uninterpreted option, in order, with its name parts as written (extension parts marked as such) and exactly one value, of the kind written: identifier, non-negative integer, negative integer (rejected below -2^63), double, string bytes or aggregate. json_name becomes the field's json_name and must be a UTF-8 string; a negated identifier is rejected.",
  ["inputs"],"every option name, value and position (file, message, field, oneof, enum, enum value, extension range, service, method)",
  "Snapshots cover a few options per position; signs, ranges and value kinds vary over all literals.",
  [GEN,PAR],[("parse_option_body / parse_option_name_part",PAR),("generate_option / generate_options / generate_options_list",GEN)])
p("C16","Aggregate option values keep every token and use text-format rules",
  "The text of an aggregate option value re-tokenises to exactly the tokens written between its matching braces, comments excluded, with integer, float and string tokens denoting the same values. '#' comments and 'f'-suffixed floats are accepted inside aggregates and rejected everywhere else, including right after an aggregate; unbalanced braces are rejected.",
  ["inputs"],"every token sequence inside an aggregate and every position of '#' or a float suffix relative to it",
  "Two snapshots cover aggregates; the lexer mode switch depends on how far the parser has peeked.",
  [PAR,LEX],[("parse_text_format_message",PAR),("TokenExtras::text_format_mode",LEX),("Display for Token",LEX)])
p("C17","Import paths that are not canonical relative paths are rejected",
  "An import is accepted if and only if its path is non-empty and splits on '/' into components none of which is empty, '.' or '..' or contains a backslash; an accepted path is recorded verbatim.",
  ["inputs"],"every import string",
  "Tests reject a handful of paths.",
  [PAR],[("is_valid_import",PAR)])
p("C18","Identifiers are validated consistently wherever a name is written",
  "A name is accepted as an identifier, and as a quoted reserved name, if and only if it is a letter or underscore followed by letters, digits and underscores; a group name must in addition start with an upper-case letter. Keywords are accepted as names of declarations, except that 'option' and 'reserved' cannot name an enum value, and names are recorded verbatim.",
  ["inputs"],"every candidate name in every naming position",
  "Tests use ordinary names; first-character and keyword cases are sampled.",
  [CASE,LEX,PAR],[("is_valid_ident / is_valid_group_name",CASE),("Token::Ident regex",LEX),("parse_ident_string",PAR)])
p("C19","A file is accepted only if every declaration in it is valid",
  "If any declaration of a file is invalid, parse returns an error no matter what valid or invalid text precedes or follows it; error recovery never turns an invalid file into an accepted one. The reported error is one of the file's actual errors: its span lies in or after the first invalid declaration.",
  ["inputs"],"every file combining valid and invalid declarations in any order",
  "Tests have one error per file, mostly at the end; recovery resynchronises at arbitrary points.",
  [PAR,GEN,LIB],[("parse_file error recovery and skip_until",PAR),("errors accumulated in TokenExtras and Context",GEN)])
p("C20","Compilation yields each needed file once, after its imports",
  "After compiling any set of roots over any acyclic import graph, the compiler's files are exactly the roots and everything they transitively import, each once, with every file after all files it imports. A file is flagged as an import exactly if it was never opened explicitly, and the descriptor set contains all of them or only the explicitly opened ones according to include_imports.",
  ["inputs","histories","configurations"],"every acyclic import graph, every sequence of opened roots, both include_imports settings",
  "Tests compile a handful of fixed graphs.",
  [CMP],[("open_file / add_import depth-first traversal",CMP),("files map and is_import flag",CMP)],
  state=[dict(name="files",meaning="metadata of all compiled files",where=CMP),dict(name="pool",meaning="descriptor pool in insertion order",where=CMP)],
  observe=["Compiler::open_file","Compiler::files","Compiler::file_descriptor_set"])
p("C21","Import cycles, missing imports and duplicate imports are always rejected",
  "Opening a file fails if and only if its transitive imports contain a cycle, a file the resolver cannot find, or the same import twice in one file (assuming the files are otherwise valid). A missing import is reported as file-not-found against the importing file, and a missing root as not found.",
  ["inputs","histories"],"every import graph, including self-imports, longer cycles and diamonds",
  "Tests contain one cycle, one missing and one duplicate import.",
  [CMP,XER],[("import_stack cycle check",CMP),("already_imported duplicate check",CMP),("into_import_error",XER)],
  observe=["Compiler::open_file","Error::is_file_not_found","Error::file"])
p("C22","File paths resolve to canonical names under the include directory",
  "An include resolver maps a path to a name if and only if the path lies strictly under the include directory when '.' components are ignored and the remainder has only normal UTF-8 components; the name is that remainder joined by '/', never contains '.', '..' or empty components and never escapes the include directory. A compiler opens a path no include directory contains as a name of its own if it has only normal components, and otherwise reports it as not included.",
  ["inputs"],"every include directory and path built from normal, '.', '..' and root components",
  "Tests list a few path pairs.",
  [INC],[("iter_after / strip_prefix",INC),("path_to_file_name",INC)],observe=["IncludeFileResolver::resolve_path"])
p("C23","A file path shadowed by an earlier include directory is rejected",
  "Opening a path that resolves to a name which the resolvers find under a different path is rejected as shadowed, both the first time and when that name has already been compiled; opening the same path spelled with or without '.' components is not.",
  ["inputs","histories"],"every pair of requested and found paths and every order of opening",
  "Tests cover two shadowing layouts.",
  [CMP,INC],[("check_shadow / path_eq",INC),("open_file",CMP)],observe=["Compiler::open_file"])
p("C24","A resolver chain uses the first resolver that has the file",
  "A chain of resolvers opens a file with the first resolver, in the order added, that does not report it as not found; an error other than not-found from an earlier resolver is returned and later resolvers are not consulted; if none has it, the chain reports not found. Path resolution likewise returns the first resolver's answer.",
  ["inputs","fault_sequences"],"every sequence of resolvers and every outcome (file, not found, other error) of each",
  "Tests chain two resolvers.",
  [CHA],[("ChainFileResolver::open_file / resolve_path",CHA)],observe=["ChainFileResolver"])
p("C25","Descriptor-set bytes are decoded faithfully and never panic",
  "Decoding any byte string as a descriptor set either fails with an error or yields a resolver serving exactly the encoded files: each file is found by its name, unknown top-level fields are skipped, and the served descriptor equals the decoding of that file's bytes. No byte string makes decoding panic or read past a field's declared length.",
  ["inputs"],"every byte string",
  "One test decodes one well-formed set.",
  [DSR,FIL],[("DescriptorSetFileResolver::decode length check",DSR),("FileDescriptor::decode",DSR)],observe=["DescriptorSetFileResolver::decode","DescriptorSetFileResolver::open_file"])
p("C26","Source info and imports are included exactly as configured",
  "The compiled descriptor set carries each file's source info if and only if include_source_info is set, independently of include_imports, and is otherwise identical; the encoded form decodes to the same descriptor set. The convenience settings can be changed at any time and affect only the output. The compile function is a compiler with both settings on that opens each file in turn, and opening several files stops at the first error.",
  ["configurations","histories"],"every combination and order of setting the two flags, for every graph of files",
  "Tests use a few flag combinations.",
  [CMP],[("file_descriptor_set",CMP),("encode_file_descriptor_set",CMP)],observe=["Compiler::file_descriptor_set","Compiler::encode_file_descriptor_set"])
p("C27","A failed open leaves previously compiled files intact and usable",
  "If opening a file fails, every file compiled before remains available unchanged, listing the files and producing a descriptor set still succeed, the failed file does not appear as an opened file, and later opens behave as if the failed one had not been attempted except that imports already compiled may remain as imports.",
  ["histories","fault_sequences"],"every history of successful and failing opens",
  "Tests stop at the first error.",
  [CMP],[("files inserted only after check_file succeeds",CMP)],observe=["Compiler::open_file","Compiler::files","Compiler::file_descriptor_set"])
p("C28","Reading a file classifies I/O and content failures correctly",
  "Opening a file that does not exist reports not-found, other I/O failures report an I/O error, invalid UTF-8 or an over-long file reports a parse-type error; otherwise the source and path are kept and the descriptor is that of the file's full content.",
  ["inputs","fault_sequences"],"every outcome of the file-system calls and every file content",
  "Tests use a few real files; fault outcomes are not injected.",
  [FIL,XER],[("File::open map_io_err",FIL),("Error::is_io/is_parse/is_file_not_found",XER)],observe=["File::open"])
p("C29","The command-line tool writes the descriptor set its flags ask for",
  "Running the protox binary compiles each given file against the include paths and, when an output path is given, writes exactly the encoded descriptor set selected by the flags; on any error it exits unsuccessfully without writing.",
  ["configurations","inputs"],"every command line",
  "No test runs the binary.",
  ["protox/src/main.rs"],[("main",  "protox/src/main.rs")],observe=["the protox binary"])
p("C30","The well-known google/protobuf files are always available, but can be overridden",
  "A compiler created with include directories (as the command line does) resolves an import of, and a request for, each of the twelve google/protobuf/*.proto files shipped with the crate under exactly that name, serving a file found in an include directory if there is one and the built-in one otherwise. The built-in resolver knows no other name and no paths.",
  ["inputs","configurations"],"every name and every set of include directories having the file or not",
  "Tests import one or two of the files.",
  ["protox/src/file/google.rs",CMP,CHA],[("GoogleFileResolver::open_file / pool by name","protox/src/file/google.rs"),("Compiler::new resolver order",CMP)],observe=["GoogleFileResolver::open_file","Compiler::open_file"])
p("C31","Import errors point at the offending import",
  "The error for a missing or duplicate import names the imported file in its message, is reported against the importing file with that file's whole text as source, and its label, if any, is exactly the text of the offending import statement; an import statement on a single line always has a label.",
  ["inputs"],"every importing file: position of the import, text before it (multi-byte characters, line endings, declarations), kind of import",
  "Snapshots cover ASCII files with the import at the start of a line.",
  [XER,FIL],[("find_import_span",XER),("Error::into_import_error",XER)],observe=["Error::file","Error as miette::Diagnostic"])
p("C32","A file's name is recorded verbatim and decides nothing else",
  "The name given to protox_parse::parse is the descriptor's name, character by character, or the file its error names; apart from that the outcome (acceptance, descriptor, error message and span) depends on the source text alone, whatever the name is and whatever was parsed before.",
  ["inputs","histories"],"every name, every source, every earlier call",
  "Tests use one fixed name per test and never compare two calls.",
  [LIB,GEN,ERR],[("parse",LIB),("generate_file",GEN),("ParseError::new",ERR)],observe=["protox_parse::parse","ParseError::file"])
p("C33","An import cycle error shows a real chain of imports",
  "When opening a file fails because of an import cycle, the message lists a chain of files beginning with the file that was opened, in which each file imports the next and the last one already occurs earlier; the error is reported for that last file and is neither a not-found, parse nor I/O error. This holds for every open, also after earlier opens failed or succeeded.",
  ["inputs","histories"],"every import graph with a cycle and every sequence of opens",
  "Tests contain one cycle of fixed length.",
  [CMP,XER],[("import_stack in add_import",CMP),("ErrorKind::CircularImport",XER)],observe=["Display for Error","Error::file"])
p("C34","Extension options reach the encoded descriptor set with the value written",
  "An option that is an extension, set in any of the places an option can be set, by a literal, an identifier, an aggregate or through a path of name parts, is present in the encoded descriptor set with exactly the value the source denotes, whatever the settings; a value that does not fit the option's type is rejected as an error in that file.",
  ["inputs","configurations"],"every option place, option type and value: integers in any radix, strings and bytes with escapes, enum values, booleans, floats, nested aggregates with comments, lists and extension fields",
  "Tests use a few fixed options; the value passes through lexing, re-printing as text and interpretation, each with its own quoting and number rules.",
  [PAR,LEX,GEN,CMP,FIL],[("parse_text_format_message / Display for Token",PAR),("generate_option",GEN),("check_file, encode_file_descriptor_set",CMP)],observe=["Compiler::encode_file_descriptor_set"])
p("C35","A file object is exactly what it was made from",
  "A File made from source text has the given name, that text as source, no path, and the parser's descriptor, and making it fails exactly when parsing does, with the parser's error; one made from a descriptor or from encoded bytes has that descriptor and its name, no source and no path, and decoding fails exactly when the bytes are not a file descriptor. Copies and conversions keep the descriptor.",
  ["inputs"],"every name, source text, descriptor and byte string",
  "Tests only go through the file system; the constructors are otherwise covered by single doc examples that the build here does not run.",
  [FIL,XER],[("File::from_source / from_file_descriptor_proto / decode_file_descriptor_proto and accessors",FIL)],observe=["protox::file::File"])
p("C36","Unexpected-token errors show the token found and only offer what is possible",
  "When parsing fails because of an unexpected token, the message shows that token as written (words, punctuation, decimal numbers and plain strings), its span covers it, and each alternative the message offers would not itself be unexpected in its place; an unexpected end of file likewise only offers what could follow.",
  ["inputs"],"every rejected source: any token in any grammatical context",
  "Snapshots show the message for some errors; nothing relates the offered alternatives to what the grammar accepts.",
  [PAR,ERR,LEX],[("Parser::unexpected_token, expect, fmt_expected and the lists given to them",PAR),("Display for Token",LEX)],observe=["Display for ParseError","ParseError::span"])
p("C37","Errors of meaning are reported in the right file, at the text in question",
  "When a file that parses is rejected by the compiler for what it means (an undefined, duplicate or conflicting name or number, a wrong kind of type, an unknown or ill-typed option), the error names that file, says which name or number it is about, carries that file's text as its source, labels exactly the declarations or references concerned, shows the line and column of the one at fault, is not taken for a parse, IO or not-found error, whichever file was opened and whatever was compiled before; the file is not listed afterwards.",
  ["inputs","configurations","histories"],"every file, imported or opened, every kind of semantic error, any text around it",
  "Snapshots of errors in fixed single files; the labels come from the locations the parser records for every construct, joined with the file's source by the compiler.",
  [CMP,XER,GEN,FIL],[("check_file, Error::from check errors with_source_code",CMP),("ErrorKind::Check",XER),("locations recorded for type names, numbers, options",GEN)],observe=["Display and Debug for Error","Diagnostic::labels and source_code"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
