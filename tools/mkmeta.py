#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "xsd-types/src/"
X = "xsd-parser/src/"
W = "wsdl-parser/src/"
M = "xsd-macro-utils/"

def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

PROPS = []
CHECKS = {}

def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=None, na=None):
    a = {"files": files, "mechanism": mechanism, "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, title
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
    CHECKS[id] = (technique, note, na)

prop("C01", "Integer and decimal types accept exactly their XSD value space",
     "Parsing a text as one of the XSD integer types (integer, nonNegative-, positive-, nonPositive-, negativeInteger) or as decimal succeeds exactly "
     "when the text is in the lexical space of that type, of any length, and yields the very number that was written. The conversions from and "
     "to big numbers keep the number. The printed text is always in the lexical space and denotes the same number.",
     ["inputs"], "every text, of any length and in any alphabet, and every big number",
     "The unit tests parse a handful of numbers of a few digits; signs, leading zeros, separators, exponents, foreign digits, "
     "hundreds of digits and values at the borders of each type are never tried.",
     [T + "types/integer.rs", T + "types/decimal.rs"],
     mech(("lexical check before BigInt/BigDecimal parsing", T + "types/utils.rs"),
          ("range check of each type", T + "types/*integer.rs")),
     "runtime monitor: differential oracle on the lexical/value space over generated, mutated and enumerated texts",
     "every call is compared with an independent recogniser written from the recommendation; overflow/debug assertions on; panics and hangs are attributed to the input",
     ["FromStr", "Display", "from_bigint", "from_biguint", "from_bigdecimal"])

prop("C02", "date, time, dateTime and dateTimeStamp parse exactly the XSD lexical space",
     "Parsing a text as date, time, dateTime or dateTimeStamp succeeds only for texts in the lexical space of XSD 1.1 (calendar, ranges, leap days, "
     "time zone limits, required time zone of dateTimeStamp), and succeeds for all of them within years of at most five digits and nanosecond precision. "
     "Every field of the value, the time zone and the fraction included, is the one which was written.",
     ["inputs"], "every text: valid ones of every shape, near misses one edit away from valid ones, arbitrary bytes",
     "The unit tests contain about five literals per type; no invalid day of a month, no fraction other than a few digits, no truncated or prolonged text.",
     [T + "types/date.rs", T + "types/time.rs", T + "types/datetime.rs", T + "types/datetimestamp.rs", T + "types/utils.rs"],
     mech(("FromStr of each type", T + "types/{date,time,datetime,datetimestamp}.rs"), ("time zone", T + "types/utils.rs")),
     "runtime monitor: differential oracle (independent recogniser with the proleptic calendar) over generated and mutated texts",
     "three-valued oracle: what the recommendation leaves to the implementation (range of years, 24:00:00, digits beyond nanoseconds) is not judged",
     ["FromStr", "public fields"])

prop("C03", "gYear to gDay and time zones parse and construct exactly the valid values",
     "Parsing a text as gDay, gMonth, gMonthDay, gYear or gYearMonth succeeds exactly for the lexical space of the type (years of 32 bits) and yields the "
     "written fields and time zone. The constructors accept exactly the combinations which have such a text, and refuse all others with an error. "
     "The year, month and day which are taken from a value are its own, with its time zone.",
     ["inputs"], "every text and every combination of constructor arguments, the extremes of their machine types included",
     "The unit tests try two or three literals per type; not the extremes of years, -00:00, +14:01, February 29, short or padded years, non-ASCII text.",
     [T + "types/gday.rs", T + "types/gmonth.rs", T + "types/gmonthday.rs", T + "types/gyear.rs", T + "types/gyearmonth.rs", T + "types/utils.rs"],
     mech(("new() checks", T + "types/g*.rs"), ("FromStr", T + "types/g*.rs"), ("parse_timezone", T + "types/utils.rs")),
     "runtime monitor: differential oracle over exhaustively enumerated small fields, generated and mutated texts",
     "all days, months, month-days and time zone minutes are enumerated; the years are sampled at the borders",
     ["FromStr", "new", "public fields"])

prop("C04", "Durations parse exactly the XSD lexical space and convert exactly",
     "Parsing a text as duration succeeds exactly for the lexical space of xs:duration (components of at most 64 bits) and yields the written components "
     "and sign. The conversion to a machine duration gives the same length of time up to the nanosecond, and gives an error whenever there is no such length "
     "(years or months, negative, too long): never a wrong value or a panic.",
     ["inputs"], "every text and every duration value",
     "The unit tests cover some twenty short literals with small numbers; neither numbers near the limits of the machine types nor durations whose sum overflows.",
     [T + "types/duration.rs"],
     mech(("FromStr state machine", T + "types/duration.rs"), ("to_std_duration", T + "types/duration.rs")),
     "runtime monitor: differential oracle in 128-bit arithmetic with overflow checks on, over generated, mutated and extreme durations",
     "fractions are compared up to 2 ns, as the component is a binary float",
     ["FromStr", "public fields", "to_std_duration"])

prop("C05", "Every value of the XSD types prints as text which parses back to it",
     "For every value of the library's types, obtained by parsing, by default or from the constructors and conversions, the printed text is in the lexical space "
     "of its XSD type and parsing it gives an equal value. Printing what was parsed from that text gives the same text again.",
     ["inputs"], "every value of every type, incl. negative and five-digit years, every time zone, every fraction of a second and very long numbers",
     "The unit tests print about two values per type.",
     [T + "types/*.rs"],
     mech(("Display", T + "types/*.rs"), ("FromStr", T + "types/*.rs")),
     "runtime monitor: round-trip oracle plus the lexical recognisers of C01-C04 on what is printed",
     "durations whose components do not fit in 64 bits cannot be written and are out of scope",
     ["Display", "FromStr", "PartialEq"])

prop("C06", "Writing any value of the library's types as XML and reading it back gives it",
     "For every built-in type of the library and every value of it, a document written with the value as the content or as an attribute is well-formed, "
     "contains the value's text, and reads back to an equal value, alone, in optional and repeated fields. Reading a document whose content "
     "or attribute is not in the lexical space of the type gives an error, not another value.",
     ["inputs"], "every value of every type in every position, and every text content (escapes, surrounding white space, empty)",
     "The unit tests read and write one document per type.",
     [T + "types/*.rs", M + "src/lib.rs"],
     mech(("UtilsDefaultSerde", M + "src/lib.rs"), ("YaSerialize/YaDeserialize of each type", T + "types/*.rs")),
     "runtime monitor: round-trip oracle through the real serializer; an independent XML parser checks the written document",
     "a crate with types that use the derive macros in every position is compiled against the working tree",
     ["yaserde::ser::to_string", "yaserde::de::from_str"])

prop("C07", "No text makes the XSD types panic, overflow or hang",
     "Parsing any text as any of the library's types, constructing, printing, comparing, converting and cloning the values, reading any document into them "
     "returns a value or an error: it never panics, aborts, overflows an integer or fails to terminate.",
     ["inputs"], "every text, in particular truncated, repeated, non-ASCII and huge ones, and the extremes of every constructor argument",
     "The unit tests contain no text which is longer than a line or not ASCII, hence never index out of a character boundary or overflow.",
     [T + "types/utils.rs", T + "types/*.rs"],
     mech(("slicing and indexing of the text", T + "utils.rs, " + T + "types/g*.rs"), ("number accumulation", T + "types/duration.rs")),
     "runtime monitor: compiler overflow/debug/bounds checks, panic hook, hang watchdog over hostile texts",
     "the crates contain no unsafe code, so the built-in checks of a debug build are the sanitizer that applies",
     ["panic hook", "exit status", "watchdog"])

prop("C08", "Generated newtypes and lists read and write what their content does",
     "A newtype over a type (single value or list), as it is generated for a simple type, parses exactly the texts its content parses, prints what its content prints, and "
     "reads and writes XML accordingly as element content and as attribute. A list splits at white space, fails if any item fails, "
     "keeps the order and the number of items, and prints them separated by single spaces.",
     ["inputs"], "every content type, every number of items, every kind of white space and every invalid item at every position",
     "The unit tests have a few fixed types with one good text each.",
     [M + "src/tuple.rs", M + "src/lib.rs"],
     mech(("UtilsTupleIo", M + "src/tuple.rs"), ("UtilsDefaultSerde", M + "src/lib.rs")),
     "runtime monitor: reference oracle (the content's own parser and printer) over generated texts and values, in compiled types",
     "the derive macros are expanded from the working tree for a zoo of types",
     ["FromStr", "Display", "yaserde"])

prop("C09", "Unions take the first member which accepts the text, and keep what none accepts",
     "A union reads a text, as the content of an element or an attribute, as the first member in the order of declaration which accepts it, and a value is written as that member writes it. A text which no "
     "member accepts is kept verbatim as the unknown case - never lost, never another member, and never an error for the rest of the document.",
     ["inputs"], "every union of every combination of members, every text accepted by none, one or several members",
     "The unit tests have one union and a few texts which are accepted by a single member.",
     [M + "src/union.rs", M + "src/lib.rs"],
     mech(("UtilsUnionSerDe", M + "src/union.rs")),
     "runtime monitor: reference oracle (members tried in order) over generated texts, in compiled unions",
     "the derive macros are expanded from the working tree for a zoo of unions",
     ["FromStr", "Display", "yaserde"])

prop("C10", "Hostile names and documentation never make the generated code invalid Rust",
     "For every supported schema, whatever its names (keywords in any case, dots, dashes, leading digits or underscores, any script), its namespaces, the locations of its imports and its documentation (any characters, comment "
     "delimiters, code) are, the generator returns code, and the code is syntactically valid Rust in which every declaration is still there with the original XML name.",
     ["inputs", "programs"], "every schema of the supported subset with arbitrary XML names, namespaces, locations and documentation",
     "The unit tests compare single fixed outputs for tame names.",
     [X + "generator/utils.rs", X + "generator/base.rs", X + "generator/*.rs"],
     mech(("filter_type_name, split_name, sanitize, match_type", X + "generator/utils.rs"), ("format_comment", X + "generator/base.rs")),
     "runtime monitor: Rust parser (syn) and a model matcher observe the code generated for random hostile schemas",
     "the code is judged by its parsed structure; spelling and layout are free",
     ["parser::parse", "generate_rs_file"])

prop("C11", "Built-in types map to the documented Rust types in every position",
     "A reference to a built-in XSD type is generated as the Rust type of the documented mapping, wherever it is used: element, attribute, base of a restriction, list item, union member, choice, "
     "group, anonymous type. The prefix which the schema binds to the XSD namespace is irrelevant.",
     ["inputs", "programs"], "every built-in type times every position times every prefix (the default namespace included)",
     "The unit tests use some ten built-in types in one position each and the prefix xs only.",
     [X + "generator/utils.rs", X + "parser/utils.rs"],
     mech(("match_type", X + "generator/utils.rs"), ("xsd namespace detection", X + "parser/schema.rs")),
     "runtime monitor: model matcher on parsed output; exhaustive type x position x prefix table plus random schemas",
     "the table is the one in the README",
     ["parser::parse", "generate_rs_file"])

prop("C12", "Occurrence limits and attribute use decide between plain, Option and Vec",
     "An element whose limits allow at most one occurrence is a plain field if it is required and optional otherwise; one which may occur more than once "
     "is a vector. An attribute is a plain field if it is required, optional otherwise, and has no field if it is prohibited. This holds in sequences, choices, "
     "all, anonymous and derived types and for every kind of type.",
     ["inputs", "programs"], "every pair of limits (absent, 0, 1, larger, unbounded) and every use, in every kind of content and for every kind of type",
     "The unit tests fix three or four of these combinations.",
     [X + "parser/element.rs", X + "parser/attribute.rs", X + "generator/struct_field.rs", X + "generator/utils.rs"],
     mech(("min/max occurs", X + "parser/utils.rs"), ("modify_type", X + "generator/base.rs")),
     "runtime monitor: model matcher on parsed output; exhaustive limit pairs plus random schemas",
     "limits of 64 bits and less",
     ["parser::parse", "generate_rs_file"])

prop("C13", "The code has every declaration of the schema, and only resolvable ones",
     "Every complex type, simple type, element and attribute group member of a supported schema appears in the generated code exactly once, with the original XML name, "
     "the prefix and URI of the target namespace and all of its fields, those of a sequence in its order. Every type which is referred to by a generated "
     "item is one which the code declares, a built-in type or a type of another namespace, and is the one the schema names.",
     ["inputs", "programs"], "every schema of the supported subset",
     "The unit tests check single declarations; no test counts what is missing from a schema with many declarations, or resolves references.",
     [X + "parser/*.rs", X + "generator/mod.rs", X + "generator/struct.rs", X + "generator/struct_field.rs"],
     mech(("parse_schema", X + "parser/schema.rs"), ("macros/attributes", X + "generator/struct_field.rs"), ("Generator::generate_rs_file", X + "generator/mod.rs")),
     "runtime monitor: model matcher (items, fields, XML names, name resolution) on parsed output of random schemas",
     "known limits of the generator which are listed in DESIGN.md are not generated",
     ["parser::parse", "generate_rs_file"])

prop("C14", "Inheritance and attribute groups are complete, whatever the order",
     "A type derived by extension or restriction has its own fields and all those of its bases, transitively, "
     "except the attributes which a restriction prohibits, and a type which refers to attribute groups has all of their "
     "attributes, transitively and each once. This does not depend on the order in which the declarations appear in the schema.",
     ["inputs", "programs"], "every hierarchy of bases and attribute groups and every order of the declarations",
     "The unit tests have one level of extension with the base declared first.",
     [X + "parser/schema.rs", X + "parser/extension.rs", X + "parser/attribute_group.rs"],
     mech(("base and group resolution", X + "parser/types.rs, " + X + "parser/schema.rs")),
     "runtime monitor: model matcher plus permutation oracle (canonical projection is the same for every order)",
     "own and inherited fields may come in any order",
     ["parser::parse", "generate_rs_file"])

prop("C15", "Generated validation reports exactly the violated facets",
     "For a simple type with minimum, maximum (inclusive or exclusive) or length facets, the generated validation accepts a value exactly when it "
     "satisfies all of the facets which are declared on that type. A value which violates one is never accepted and one which satisfies all is never refused, in the whole range of the type.",
     ["inputs", "programs"], "every combination of these facets on every ordered numeric type and on strings, and every value, the borders and their neighbours included",
     "The unit tests compare the text of a few generated functions and never run one.",
     [X + "generator/validator.rs", X + "parser/restriction.rs", "xsd-parser/src/generator/tuple_struct.rs"],
     mech(("facet parsing", X + "parser/restriction.rs"), ("gen_facet_validation", X + "generator/validator.rs")),
     "runtime monitor: the generated code is compiled and run; oracle: exact comparison in big decimals",
     "lengths of ASCII texts (the unit tests pin the byte length); facets of C15 only",
     ["Validate::validate of compiled code"])

prop("C16", "Generated code compiles, and documents round-trip through it",
     "For every supported schema the generated code compiles with the runtime libraries. A valid document of a complex type is read into the generated type with every attribute and element at "
     "its place and written back as a document with the same names, namespaces, attributes, element values and number of occurrences.",
     ["inputs", "programs"], "every schema of the supported subset and every valid instance of it",
     "The unit tests compile nothing that is generated.",
     [X + "generator/*.rs", M + "src/*.rs", T + "types/*.rs"],
     mech(("yaserde attributes", X + "generator/struct_field.rs"), ("derive macros", M + "src/lib.rs")),
     "runtime monitor: random schemas are generated, compiled with rustc, and run on generated instances; an independent XML parser compares documents",
     "the compiled subset excludes the limits listed in DESIGN.md",
     ["rustc", "yaserde::de::from_str", "yaserde::ser::to_string"])

prop("C17", "Anonymous types are declared once, in their own scope, and referred to there",
     "Every anonymous type of an element or attribute is generated in a scope of the declaration it is part of, at any depth, and the field refers to exactly that "
     "type. Anonymous types of elements with the same name in different places are kept apart.",
     ["inputs", "programs"], "every nesting of anonymous types and every repetition of names",
     "The unit tests have one level of nesting.",
     [X + "parser/element.rs", X + "generator/struct.rs", X + "generator/base.rs"],
     mech(("subtypes", X + "parser/types.rs"), ("mod_name/join_subtypes", X + "generator/base.rs")),
     "runtime monitor: model matcher with name resolution of nested modules on parsed output",
     "",
     ["parser::parse", "generate_rs_file"])

prop("C18", "Generation is a function of the schema alone",
     "The same schema gives byte for byte the same code in every run, process and thread, with a new or a reused generator, and when the same parsed schema is generated several times. "
     "XML comments, processing instructions, the order of XML attributes, quotes and insignificant white space do not change the code.",
     ["inputs", "histories", "schedules"], "every schema, every history of earlier generations with the same generator, every process",
     "The unit tests generate each schema once.",
     [X + "generator/mod.rs", X + "parser/schema.rs"],
     mech(("state shared through the generator and the parsed file", X + "generator/mod.rs"), ("ordered collections", X + "parser/*.rs")),
     "runtime monitor: offline comparison of recorded outputs over repeated, reused, threaded and multi-process runs",
     "hash seeds differ per process and per map",
     ["generate_rs_file"])

prop("C19", "Documentation appears above its declaration and only as comments",
     "The documentation of types, elements, attributes and enumeration values appears in comments directly above the declaration it belongs to, with all of its "
     "words. Apart from comments, the generated code is the same as that of the schema without documentation.",
     ["inputs", "programs"], "every documentation text (line ends, comment delimiters, quotes, any script) at every place",
     "The unit tests have one documented type.",
     [X + "parser/utils.rs", X + "generator/base.rs"],
     mech(("get_documentation", X + "parser/utils.rs"), ("format_comment", X + "generator/base.rs")),
     "runtime monitor: token comparison with the undocumented twin and a comment-to-declaration matcher",
     "lines of a single character are dropped by design; annotation of a global element with an anonymous type belongs to the type",
     ["parser::parse", "generate_rs_file"])

prop("C20", "Replaced generator parts are used for everything they are responsible for",
     "A part of the generator which the user replaces through the builder is used for every item of its kind, at the top level and nested, and for no other. Parts which are not "
     "replaced behave as by default: replacing parts by ones with the default behaviour does not change the code.",
     ["configurations", "inputs"], "every subset of replaced parts and every supported schema",
     "The unit tests replace one part in one example.",
     [X + "generator/builder.rs", X + "generator/mod.rs", X + "generator/default.rs"],
     mech(("GeneratorBuilder", X + "generator/builder.rs"), ("dispatch", X + "generator/mod.rs")),
     "runtime monitor: instrumented replacements record each call and mark their output; conservation of marks against the projection",
     "",
     ["GeneratorBuilder"])

prop("C21", "WSDL code has one function per operation with the right message types",
     "For every port type and each of its operations, the generated code has exactly one async function, in the order of declaration, whose arguments after the transport are the "
     "parts of the operation's input message, whose result is the part of its output message, each with the generated type of the part's element or type, and it is syntactically valid. "
     "An operation without an output has the unit result.",
     ["inputs", "programs"], "every WSDL with any number of port types, operations, messages, bindings and prefixes",
     "The unit tests check a single operation.",
     [W + "generator/*.rs", W + "parser/*.rs"],
     mech(("generate_functions", W + "generator/mod.rs"), ("Definitions::new", W + "parser/definitions.rs")),
     "runtime monitor: parsed functions are matched with the generated WSDL model",
     "the bodies of functions of messages with one part are compiled and run; those of messages with none or several do not compile (a known finding), hence only their signatures are compared",
     ["Definitions::new", "generator::generate"])

prop("C22", "Schemas embedded in WSDL generate the same code as on their own",
     "The WSDL tool emits for every embedded schema the same declarations as the schema tool does for that schema on its own (with the namespaces in scope), all of them, "
     "in the order of the document, followed by the functions of the operations.",
     ["inputs", "programs"], "every WSDL with any number of embedded schemas, with inherited namespace declarations",
     "No test runs the WSDL tool.",
     [W + "parser/types.rs", "wsdl-parser-cli/src/main.rs", X + "parser/schema.rs"],
     mech(("Types::new", W + "parser/types.rs"), ("parse_schema of an inner node", X + "parser/schema.rs")),
     "runtime monitor: differential comparison of the real tools' outputs, token by token",
     "a second prefix of one namespace in the scope of a schema is outside of the workload (the first one declared is the one recognised)",
     ["wsdl-parser-cli", "xsd-parser-cli", "parse_schema"])

prop("C23", "The command line tools convert every input file to its own output",
     "Given a directory, the tools write for every file of their kind, at any depth, exactly one output at the same relative path with the Rust extension; given a file, they write the code to the named output or "
     "to the standard output. The code is always what the library generates for that file, complete, replaces earlier longer content, and the inputs stay unchanged.",
     ["inputs", "configurations"], "every directory tree, file name, size and mode of invocation",
     "There are no tests of the tools.",
     ["xsd-parser-cli/src/main.rs", "wsdl-parser-cli/src/main.rs"],
     mech(("process_dir", "xsd-parser-cli/src/main.rs"), ("process_single_file", "xsd-parser-cli/src/main.rs")),
     "runtime monitor: snapshots of the directory trees before and after runs of the real tools against the library's output, with injected short and interrupted reads and writes (LD_PRELOAD)",
     "two inputs with one output (a.xsd, a.xml) are a known finding",
     ["file system", "stdout", "exit status"])

prop("C24", "The command line tools report every failure and damage nothing",
     "If an input cannot be read or is not well-formed, or an output cannot be written, the tool ends with a non-zero exit status and a message. It then has not "
     "created or changed the output of the failed input, nor any input.",
     ["inputs", "fault_sequences"], "every kind of failing input and output: missing, unreadable, not UTF-8, truncated at any point, full device, missing directory",
     "There are no tests of the tools.",
     ["xsd-parser-cli/src/main.rs", "wsdl-parser-cli/src/main.rs"],
     mech(("error handling in main", "xsd-parser-cli/src/main.rs")),
     "runtime monitor: fault injection (ill-formed and unreadable inputs, full devices, a failure of every single system call of a run by LD_PRELOAD) with snapshots before and after",
     "an output may be incomplete only if writing it failed",
     ["file system", "exit status", "stderr"])

prop("C25", "Text which is not well-formed XML is an error, never a panic or partial code",
     "Parsing a text as a schema gives an error whenever the text is not well-formed XML. It never panics, hangs or overflows the stack for such a text.",
     ["inputs"], "every truncation and mutation of a schema document, and every other text",
     "One unit test has a single malformed text.",
     [X + "parser/mod.rs"],
     mech(("parse", X + "parser/mod.rs")),
     "runtime monitor: mutated documents, judged by an independent well-formedness oracle (expat); panic hook, crash detection and watchdog",
     "unbounded nesting and three leniencies of the XML parser are known findings",
     ["parser::parse"])

prop("C26", "Enumerations map each value to its own variant and back",
     "The generated enumeration of a simple type has one variant for every value; each value is read into its own variant and written as exactly the text of the schema. "
     "Another text is kept as unknown or refused, never mapped to a declared value.",
     ["inputs", "programs"], "every list of values (any characters, differing in case, digits, spaces) and every text read",
     "The unit tests have a single enumeration of tame values and do not run it.",
     [X + "generator/enum.rs", X + "generator/enum_case.rs", X + "parser/restriction.rs"],
     mech(("enum generation", X + "generator/enum.rs"), ("rename", X + "generator/enum_case.rs")),
     "runtime monitor: the generated code is compiled and run on every value, near misses and other texts",
     "values which become the same identifier are a known finding",
     ["yaserde::de::from_str", "yaserde::ser::to_string"])

prop("C27", "The work of generation grows in step with the schema",
     "The work of parsing a schema or WSDL document and generating its code grows at most like a small polynomial of its size: when the number of declarations, the depth of nested types, "
     "the length of a chain of extensions, groups or references, of names, values or documentation doubles, the number of allocations grows at most six-fold and their size twelve-fold. "
     "The same holds for reading and printing long texts of the library's types. Nothing is exponential in the depth or in the number of paths between declarations.",
     ["inputs"], "every family of growing schemas, every pattern of nested and of layered types, at every size",
     "The unit tests convert schemas of a few declarations; the work of none is measured.",
     [X + "parser/*.rs", X + "generator/*.rs", W + "parser/*.rs", T + "types/*.rs"],
     mech(("recursion over nested types", X + "generator/struct.rs, " + X + "generator/base.rs"), ("resolution of bases and groups", X + "parser/schema.rs"),
          ("operations and messages", W + "generator/function.rs")),
     "runtime monitor: a counting allocator observes the work of the real code over series of doubled sizes; CPU time and hang watchdog",
     "work which does not allocate is only seen if it takes more than 30 s of CPU time",
     ["global allocator", "parser::parse", "generate_rs_file", "generator::generate"])

prop("C28", "Generated readers depend on what a document says, not on how it is written",
     "A document read by the compiled generated code gives the same value however it is written: with any prefixes and places of the namespace declarations, XML declaration, comments, white space between "
     "elements, character references, sections of character data within values of the library's types, order and quotes of attributes, empty-element tags. "
     "A document in which one text of a library type, a newtype or a list of non-text items is not in its lexical space is refused with an error, wherever it is; nothing panics.",
     ["inputs", "programs"], "every supported schema, every valid document of it in every spelling, and every wrong text in every place",
     "No unit test compiles generated code and reads a document with it.",
     [X + "generator/*.rs", M + "src/*.rs", T + "utils/yaserde.rs"],
     mech(("yaserde attributes", X + "generator/struct.rs, " + X + "generator/struct_field.rs"), ("deserialize", T + "utils/yaserde.rs"), ("UtilsTupleIo", M + "src/tuple.rs")),
     "runtime monitor: compiled generated code reads one document in several spellings, with an independent renderer and parser; wrong texts must be refused",
     "texts within choices are not spoiled, and texts of primitive types are not split: yaserde itself reads them",
     ["yaserde::de::from_str", "yaserde::ser::to_string"])

prop("C29", "Values compare as the numbers, moments and lengths they stand for",
     "Two integers, decimals, dateTimes, dateTimeStamps or durations are equal exactly when they denote the same number, moment or length of time, however they were written or made "
     "(scale, zeros, signs, time zone, carried units), and <, <=, >, >= and partial_cmp order them as XSD does, durations partially (a month is neither less nor greater than 30 days). "
     "Dates, times and the g-types of the same time zone are equal exactly when their fields are. Cloning, printing and parsing, and the conversions to and from chrono types and big "
     "numbers give an equal value. Equality and order are consistent with each other, symmetric and transitive.",
     ["inputs"], "every pair of values of a type, from texts, numbers and conversions",
     "The unit tests compare parsed values with expected ones only: hardly any two different values, and no two spellings of one value.",
     [T + "types/*.rs"],
     mech(("derived PartialEq and PartialOrd", T + "types/*.rs"), ("PartialOrd of Duration", T + "types/duration.rs"), ("to_/from_ conversions", T + "types/*.rs")),
     "runtime monitor: online checker of equality and order over clusters of neighbouring values, against exact arithmetic on what was written",
     "values with and without a time zone, and fields of different time zones, are checked for the laws only; durations whose fraction of a second is no binary one are a known finding",
     ["PartialEq", "PartialOrd", "Clone", "to_*/from_*"])

prop("C30", "The WSDL model has what the document declares",
     "The model of a WSDL document has exactly the declarations of the document: its name and target namespace, the imports with namespace and location, the schemas of its types, the messages "
     "with their parts in order (name, element or type), the port types with their operations in order, each with its kind (request-response, one-way, solicit-response, notification), "
     "its name, documentation, parameterOrder, the names and messages of its input, output and faults, and the bindings with the names of their port type, operations and parameters. A reference to a message leads to the message of that name, with or without a prefix.",
     ["inputs", "programs"], "every valid WSDL 1.1 document with any names, prefixes, order of declarations, comments and extensions",
     "The unit test has one document with two operations of one kind and counts the declarations.",
     [W + "parser/*.rs"],
     mech(("Definitions::new", W + "parser/definitions.rs"), ("OperationType::new", W + "parser/port_type.rs"), ("Message, Part", W + "parser/message.rs")),
     "runtime monitor: the model observed through its public interface is compared with the generated declarations",
     "imports have different namespaces, messages and port types different names, as the model requires; the structure below the operations of bindings and the services are not part of it",
     ["Definitions::new", "accessors of Definitions, Message, PortType, Operation"])

prop("C31", "Declarations which do not refer to each other do not change each other",
     "The code which is generated for a declaration of a schema, with its comments, depends on that declaration and on those it refers to, directly or through others, and on nothing "
     "else: adding, removing or moving other declarations of any kind, number or name leaves it as it is. The code of a schema is the code of its parts, without loss or addition.",
     ["inputs", "programs"], "every schema and every division of it into parts which are closed under references",
     "The unit tests generate one small schema each and never compare the code of one declaration within different schemas.",
     [X + "parser/*.rs", X + "generator/*.rs"],
     mech(("state shared between declarations", X + "parser/schema.rs, " + X + "generator/mod.rs"), ("resolution of bases and groups by name", X + "parser/types.rs")),
     "runtime monitor: metamorphic comparison (items and comments of a whole schema against those of its closed parts)",
     "declarations which mention the name of another one are kept together with it, also where the name is no reference",
     ["parser::parse", "generate_rs_file"])

BUILT = set(open(os.path.join(ROOT, "tools", "built.txt")).read().split())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        technique, note, _ = CHECKS[i]
        if i in BUILT:
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                           "technique": technique, "level": "exploration",
                           "level_note": note or "what was explored is counted in the evidence; nothing is claimed beyond it"})
        else:
            na.append({"property": i, "reason": "the check is not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Every check builds the harness against /repo's working tree (path dependencies). VERIF_SEED selects the workload. No hooks are needed in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
