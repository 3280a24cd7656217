#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ENC = "codecs/src/aper/encode/mod.rs"; ENCI = "codecs/src/aper/encode/encode_internal.rs"
DEC = "codecs/src/aper/decode/mod.rs"; DECI = "codecs/src/aper/decode/decode_internal.rs"
DECS = "codecs/src/aper/decode/decode_charstrings.rs"; APER = "codecs/src/aper/mod.rs"
STATE = [("bit buffer", "bits written so far / to be read", APER), ("read offset", "next bit to read; alignment is relative to bit 0", APER)]

p("C01", "Encoded bits are the X.691 Aligned PER encoding of the value",
  "For every supported type, every constraint on it (value range, size range, extension marker) and every value the constraint allows, encoding appends exactly the bits that X.691 ALIGNED PER prescribes for that value at the current bit position, including alignment padding and length determinants. Encoding never changes bits written earlier.",
  ["inputs", "configurations"],
  "all constraints whose bounds lie on the thresholds of X.691, all values on the thresholds inside them, all eight bit positions, all ten primitive encodings",
  "The unit tests pin a handful of byte strings; the encoding form switches on range/length thresholds (2, 3, 255, 256, 65536, 2^32, 127/128, 16K) crossed with bit alignment, a product tests only sample.",
  [ENC, ENCI, APER], [("constrained/semi-constrained/unconstrained whole numbers", ENCI), ("length determinants and content alignment", ENC)],
  ["bytes and bit count of the codec buffer after each encode call"], STATE)
p("C02", "Any sequence of encodes decodes back to the same values, consuming all bits",
  "For every sequence of values of supported types encoded one after another into one buffer, decoding the same sequence of types returns the same values in order and consumes exactly the bits that were written. This holds both when reading back from the encoder's own buffer and from the byte-padded output.",
  ["histories", "inputs"],
  "all operation sequences up to a depth over an alphabet of typed values that covers every encoding form and leaves the buffer at every bit position",
  "Alignment makes the meaning of one call depend on all earlier ones; tests encode or decode single values, nearly always from bit 0.",
  [ENC, DEC, APER], [("shared read/write cursor and alignment", APER)],
  ["decoded value, remaining bits"], STATE)
p("C03", "Decoding arbitrary bytes always returns a value or an error",
  "For every byte string and every supported type and constraint, decoding terminates with a value or an error: it never panics, never loops without consuming input, and never allocates or iterates out of proportion to the input. This covers both the primitive decode functions and derived types.",
  ["inputs", "configurations"],
  "all byte strings up to a length bound, at all bit offsets, for every decode function and a family of derived types; plus all length/extension/index fields set to hostile values",
  "Tests decode well-formed captures; a decoder faces every possible byte string from the network, and the dangerous ones (huge lengths, zero lengths, ends in the middle of a field) are not in the tests.",
  [DEC, DECI, DECS, APER, "codecs_derive/src/aper/seqof.rs"], [("bounds checks before reading", APER), ("length determinants", DECI)],
  ["panic, error or value; time and allocation"], STATE)
p("C04", "Decoded values satisfy the constraint and mean what X.691 says",
  "Whenever decoding of a type with a constraint succeeds on any input bits, the returned value satisfies that constraint (or is flagged or representable as an extension value where the type is extensible) and equals the value X.691 assigns to those bits. Every canonical encoding of an allowed value is accepted.",
  ["inputs", "configurations"],
  "all bit strings up to a length bound against a reference decoder, for every constraint on the threshold lattice",
  "Tests decode encodings that their own encoder or a peer produced, never the unused bit patterns of a constrained field.",
  [DEC, DECI, DECS], [("range checks after reading", DECI)], ["returned value or error"], STATE)
p("C05", "The encoder refuses values outside the constraint",
  "Encoding a value that its constraint does not allow (integer outside the range, string or list size outside the size range, unknown alternative) returns an error. It never reports success after writing an encoding of some other value.",
  ["inputs", "configurations"],
  "all out-of-range values adjacent to and far from every bound on the threshold lattice, through the primitive functions and derived types, nested in sequences and lists",
  "Tests encode allowed values; the silent-success cases need a specific value/bound combination or a nested position whose error is dropped.",
  [ENC, ENCI, "codecs_derive/src/aper/seqof.rs"], [("bound checks before writing", ENCI)], ["Ok/Err of encode"])
p("C06", "A truncated encoding is reported as an error",
  "For every encoded value, decoding any strict prefix of its bits that ends before the last significant bit returns an error rather than a value. No missing bit is ever treated as zero.",
  ["inputs", "fault_sequences"],
  "every cut point of every encoding produced by the C01/C08-C12 enumerations",
  "Tests decode complete messages only.",
  [DEC, DECI, APER], [("remaining-bits checks", APER)], ["Ok/Err of decode on each prefix"], STATE)
p("C07", "Strings of 16384 or more units decode completely or are refused",
  "A bit, octet or character string sent in X.691 fragments decodes to the complete concatenation of the fragments, and a size-constrained string of 16384 or more units decodes correctly. Encoding a string of 16384 or more units either produces a valid encoding of the whole string or returns an error, never a shortened or mis-delimited one.",
  ["inputs"],
  "lengths around every multiple of 16384 up to 5*16384 and around 65535/65536, every string type, constrained and unconstrained, at all bit offsets",
  "No test has a string longer than a few hundred octets.",
  [DEC, DECI, DECS, ENC, ENCI], [("fragment loop", DEC)], ["decoded string; Ok/Err of encode"])
p("C08", "SEQUENCE encodings carry exactly the components that are present",
  "For a sequence type, the encoding is the extension bit (if extensible), one presence bit per optional component in order, then the present components in order; decoding restores exactly the same set of present components with the same values. This holds for every subset of optional components and every nesting of sequences.",
  ["programs", "inputs"],
  "all sequence shapes up to 4 components (mandatory/optional x component types), all presence subsets, plus shapes with many optionals, nested, at all bit offsets",
  "A presence bitmap error shows only for particular subsets and indices; the tests exercise a few captured messages.",
  ["codecs_derive/src/aper/seq.rs", DEC, ENC], [("presence bitmap", "codecs_derive/src/aper/seq.rs")], ["encoded bits; decoded components"])
p("C09", "CHOICE and ENUMERATED indices map one-to-one to alternatives",
  "Each root alternative of a choice and each root item of an enumeration has its own index, encoded in the X.691 form for the number of root alternatives; decoding an index returns that alternative and no other. Indices with no alternative, and extension values, are never decoded as a root alternative.",
  ["programs", "inputs"],
  "choices and enumerations with 1..N alternatives around the bit-width thresholds, with and without extension marker and extension alternatives, all indices including unused ones",
  "Tests cover a few alternatives; a wrong width or an alias shows only at particular alternative counts and indices.",
  ["codecs_derive/src/aper/choice.rs", "codecs_derive/src/aper/enumerated.rs", DEC, ENC], [("index encode/decode", DEC)], ["encoded bits; decoded alternative"])
p("C10", "SEQUENCE OF preserves every element and the element count",
  "A list encodes its element count in the X.691 form for its size constraint followed by each element in order, and decodes to the same elements in the same order, for every allowed count including zero. Counts the constraint does not allow, or that cannot be encoded, are refused.",
  ["programs", "inputs"],
  "size constraints on the threshold lattice (fixed, ranges, extensible, none) x counts at and around each threshold x element types, including zero-bit elements",
  "Tests decode lists of a few elements from captures; zero, maximum and out-of-range counts are not tested.",
  ["codecs_derive/src/aper/seqof.rs", DECI, ENC], [("length determinant and element loop", "codecs_derive/src/aper/seqof.rs")], ["encoded bits; decoded list"])
p("C11", "Open type contents are selected by their key and bounded by their length",
  "A value in an open type is decoded as the type that the key component of the same sequence selects, and is encoded as a length in octets followed by the complete padded encoding of the value. Decoding always continues after exactly that many octets, whatever the content type read, and an unknown key or content that overruns the length is an error.",
  ["programs", "inputs", "histories"],
  "sequences of (key, open type, following fields), with every key, nested open types, lists of such sequences, empty contents, contents shorter and longer than the length",
  "The captures used by tests have content lengths that agree with the content and keys that are all known.",
  ["codecs_derive/src/aper/open.rs", "codecs_derive/src/aper/seq.rs", APER], [("key hand-over between fields", "codecs_derive/src/aper/seq.rs"), ("length-delimited content", "codecs_derive/src/aper/open.rs")],
  ["decoded value, read position after the open type"], [("key", "selector for the next open type", APER)])
p("C12", "Unknown extension additions are skipped when decoding an extensible SEQUENCE",
  "A sequence encoded by a peer whose newer version of an extensible type has additional components decodes to the known root components, and decoding continues at the first bit after the additions. This holds for any number and content of additions, at any nesting depth.",
  ["inputs", "programs"],
  "all addition bitmaps up to a width (and widths around 64), all contents up to a length including long ones, at all bit offsets, nested and followed by further fields",
  "No test decodes a message with extension additions.",
  ["codecs_derive/src/aper/seq.rs", DEC, DECI], [("extension bit of the sequence header", DEC)], ["decoded root components, read position"])

p("C13", "The codec buffer is a bit string with a read position",
  "The octets obtained from an encoding buffer are exactly the bits written to it, in order, most significant bit first, zero-padded to whole octets; octets appended from another buffer stand there unchanged. Setting or swapping bits, seeking, storing a key and reading affect only what they name, and every decoder reads at the current position and moves it past what it read. Reading at or beyond the end of the data, also after a seek to there, is an error and never a panic.",
  ["inputs", "histories"],
  "every history of up to a bounded number of operations (writes of each kind, append, set, swap, seek, reads of each kind, align, keys), from empty and from given octets",
  "Tests encode or decode single messages; the interplay of appends, corrections in place, seeks and reads is a product of histories.",
  [APER], [("AperCodecData and its position", APER)], ["octets, read position, key, values read"])

TOK = "asn-compiler/src/tokenizer/mod.rs"; PARS = "asn-compiler/src/parser/asn"; RES = "asn-compiler/src/resolver/asn"; GEN = "asn-compiler/src/generator/asn"; COMP = "asn-compiler/src/compiler.rs"
HOOK = "compile to a string in-process and fix the order in which hash-ordered definitions are visited"
p("K01", "The tokenizer splits any text into the ASN.1 lexical items it contains",
  "For every input text the tokenizer returns either the sequence of lexical items ASN.1 prescribes, with white space and comments removed and nothing else lost or merged, or an error; it never panics. Each item carries the line and column where it starts.",
  ["inputs"],
  "all texts up to a length bound over an alphabet with one representative of every character class, plus all pairs and triples of lexical items with every separator",
  "Tests tokenize a few snippets; adjacent-item and end-of-input combinations are a product they only sample.",
  [TOK], [("character-driven scanner", TOK)], ["token kinds, texts and positions"])
p("K02", "The compiler terminates with code or an error on every input",
  "For every input text the compiler terminates and either succeeds or reports an error. It never panics, overflows the stack or loops forever.",
  ["inputs"],
  "all token sequences up to a length in every grammar context, and every single- and double-token edit (delete, duplicate, swap, replace) of a corpus that covers every construct",
  "Tests compile valid modules and a few chosen errors; most parser states at end of input or before an unexpected token are never reached by tests.",
  [TOK, PARS, RES, GEN], [("recursive descent over a token slice", PARS)], ["exit, panic, time"], None, HOOK)
p("K03", "INTEGER constraints become exactly the bounds the specification states",
  "The bounds and extension marker attached to a generated integer type are the smallest and largest value that the constraint of the ASN.1 definition permits, for single values, ranges, unions, intersections, named values and MIN/MAX. A constraint that permits no value, or that is not understood, is reported as an error, never dropped or widened.",
  ["programs", "inputs"],
  "all constraint expressions up to a size over a set of bounds, with and without extension marker, literal or by reference, against set semantics",
  "Tests check a few one-range constraints; combinations of operators are never compared with the set they denote.",
  [PARS + "/types/constraints.rs", RES + "/types/constraints.rs", GEN + "/types/base/integer.rs"], [("constraint to value-set resolution", RES + "/types/constraints.rs")], ["generated lb/ub/extensible attributes or error"], None, HOOK)
p("K04", "Generated integer types can hold every value the constraint permits",
  "The Rust integer type chosen for an INTEGER type can represent every value that the constraint permits, extension additions included. A type without bounds gets a 64-bit type, and an end point is never truncated to fit: an INTEGER type that needs more than 64 bits is an error.",
  ["programs", "inputs"],
  "all pairs of bounds on powers of two and their neighbours up to 64 bits, both signs",
  "Tests use a few ranges, all non-negative; the width selection has a case per power of 256 and per sign.",
  [RES + "/types/base/integer.rs", PARS + "/structs/types/constraints.rs"], [("width selection", RES + "/types/base/integer.rs")], ["generated Rust type or error"], None, HOOK)
p("K05", "SIZE constraints become exactly the size bounds the specification states",
  "The size bounds and size-extension marker attached to generated string and list types are those of the ASN.1 SIZE constraint, for fixed sizes, ranges, unions, named values and MAX, and the absence of a constraint leaves the size unbounded. A size constraint that permits no size, or that is not understood, is an error.",
  ["programs"],
  "all size constraint expressions up to a size x every string and list type x every place a type can occur (definition, component, element, alternative, parameter)",
  "Tests check few combinations; the same constraint must be carried through many different code paths.",
  [PARS + "/types/constraints.rs", RES + "/types/base", GEN + "/types"], [("size attributes", GEN + "/types")], ["generated size attributes or error"], None, HOOK)
p("K06", "Generated SEQUENCE types keep components, order, optionality and extensibility",
  "The struct generated for a sequence type has one field per root component in the order of the specification, with the type of that component, optional exactly when the component may be absent, with presence indices in order, and is marked extensible exactly when the specification says so. Components added after the extension marker are never part of the root. A component list that is malformed or uses an identifier twice is an error.",
  ["programs"],
  "all sequence shapes up to 4 components over {mandatory, OPTIONAL, DEFAULT} x component types x all extension marker positions and additions, nested",
  "Tests parse a few shapes and compare parser output, not the layout that determines the encoding.",
  [PARS + "/types/constructed/seq.rs", RES + "/types/constructed.rs", GEN + "/types/constructed/seq.rs"], [("component list construction", PARS + "/types/constructed/seq.rs")], ["generated struct"], None, HOOK)
p("K07", "Generated CHOICE and ENUMERATED types keep alternatives and their indices",
  "The generated type for a choice has one variant per alternative with the alternative's type, that for an enumeration one constant per root item. The index of each is its X.691 index: for choices under automatic tagging the position among the root alternatives or among the additions, in modules without it the rank of the alternative's (smallest) tag in the canonical order of X.680 8.6, for enumerations the rank of the item's number, items without a number being given the lowest unused ones. The bounds are those of the root, and the type is extensible exactly when specified. Additions are never numbered as root alternatives. A malformed list, or one that uses an identifier or number twice, is an error.",
  ["programs"],
  "all choices and enumerations up to 5 alternatives x extension marker positions x numbering x alternative types, and sizes around 256",
  "Tests compile a few without comparing indices.",
  [PARS + "/types/constructed/choice.rs", PARS + "/types/base/enumerated.rs", GEN + "/types/constructed/choice.rs", GEN + "/types/base/enumerated.rs"], [("alternative numbering", GEN)], ["generated enum/struct"], None, HOOK)
p("K08", "Parameterized types are instantiated with the actual parameters of each use",
  "Every use of a parameterized type behaves as if its body had been written out with the actual parameters (types, values, object sets) substituted for the dummy references, and nothing else substituted. Two uses with different parameters never share or overwrite one another's result.",
  ["programs"],
  "all bodies up to a size x 1..2 parameters of every kind x actual parameters x several uses in every order, compared with the hand-substituted module",
  "Tests instantiate one parameterized type once.",
  [PARS + "/defs.rs", RES + "/types/constructed.rs", "asn-compiler/src/resolver/int.rs"], [("token substitution", PARS + "/defs.rs")], ["generated code for both variants"], None, HOOK)
p("K09", "Open types list exactly the alternatives of their object set, with right keys",
  "For every information object set used to constrain an open type, the generated open type has one variant per object (including objects of referenced sets and objects defined separately), whose key is the value of the object's identifying field and whose payload is the object's type. Objects without the optional type field contribute none, and no object is lost, duplicated or given another's key.",
  ["programs"],
  "all object sets up to 4 objects (inline, by reference, nested sets, extension markers, optional fields omitted) over 2 classes, direct and through parameterized containers",
  "Tests compile the bundled specifications without comparing the tables with the specification.",
  [PARS + "/types/ioc.rs", RES + "/types/ioc.rs", GEN + "/types/constructed", PARS + "/defs.rs"], [("object set flattening", RES + "/types/ioc.rs")], ["generated enum keys and payload types"], None, HOOK)
p("K10", "Compiler output does not depend on definition, module or hash order",
  "The generated code is the same for every order of the definitions within a module, of the modules within the input and of the input files, and from run to run. No internal iteration order can change, drop or duplicate a definition or turn success into failure.",
  ["schedules", "programs"],
  "all permutations of up to 5 definitions/modules of a corpus, times all orders in which independent definitions may be visited",
  "Tests run with one random hash order and one file order.",
  [COMP, PARS + "/structs/module.rs", "asn-compiler/src/resolver/int.rs"], [("topological sort over hash maps", COMP)], ["generated text"], [("resolved definitions", "name to resolved type", "asn-compiler/src/resolver/int.rs")], HOOK)
p("K11", "No definition is silently dropped: each is generated or reported as an error",
  "When compilation succeeds, every type definition of the input that has no parameters has exactly one counterpart in the output (values, classes, objects, object sets and parameterized types generate nothing by themselves). Undefined references, references to a name of the wrong kind where a type is generated, cyclic definitions or imports, and duplicate definitions or modules are reported as errors instead of producing output without them; so are names of other modules that are used without being imported.",
  ["programs"],
  "all reference graphs up to 4 definitions over 1..2 modules (defined, undefined, cyclic, duplicate, imported, missing import)",
  "Tests compile complete, acyclic modules.",
  [COMP, PARS + "/structs/module.rs", "asn-compiler/src/resolver/int.rs"], [("topological order and lookup", COMP)], ["success/failure, set of generated definitions"], None, HOOK)
p("K12", "Named values and imported names resolve to the definition they denote",
  "A value reference used in a constraint, in a parameter or in an object, directly or through a chain of other references and across imports, has the same effect as writing the literal value it denotes. An imported name denotes the definition of the module it is imported from.",
  ["programs"],
  "all reference chains up to depth 3 x every place a value may occur x same or imported module, compared with the module with literals written out",
  "Tests resolve direct references in one place.",
  [RES + "/values.rs", RES + "/types/constraints.rs", PARS + "/module.rs", "asn-compiler/src/resolver/int.rs"], [("value lookup", "asn-compiler/src/resolver/int.rs")], ["generated code for both variants"], None, HOOK)
p("K13", "Generated code compiles and encodes every value as the specification prescribes",
  "For every specification the compiler accepts and whose types the codec derive supports (all but the string types it refuses as not supported), the generated Rust code compiles with the codec derive, and the derived codecs encode and decode every value of the generated types to and from the X.691 ALIGNED PER encoding of the ASN.1 type as specified. Identifiers that are Rust keywords or differ only in case or hyphens still give valid, distinct Rust names.",
  ["programs", "inputs"],
  "a systematically enumerated family of modules covering every construct and its nesting, each compiled by rustc and compared value by value with a reference encoder working from the ASN.1 type",
  "Tests check in generated code for four specifications and decode a few captures; they never regenerate it.",
  [GEN, "codecs_derive/src/aper", "asn-compiler/src/generator/int.rs"], [("code generation", GEN), ("derive expansion", "codecs_derive/src/aper")], ["rustc result; encoded bytes; decoded values"])
p("K14", "The command-line compiler succeeds with code on stdout or fails with a message",
  "The command-line tool exits with status 0 and prints exactly the generated code on standard output when every input file was read, parsed, resolved and generated; otherwise it exits with a non-zero status, says why on standard error and prints no code. The result for several files equals the result for the same modules in one file.",
  ["inputs", "configurations"],
  "all combinations of up to 3 files that are valid, unreadable, syntactically wrong, unresolvable or empty, in all orders",
  "No test runs the tool.",
  ["asn-compiler/src/bin/hampi-asn1c.rs", COMP], [("error propagation to main", "asn-compiler/src/bin/hampi-asn1c.rs")], ["exit status, stdout, stderr"])
p("K15", "One compiler object, used again, gives the code of the modules added to it",
  "Whatever calls came before on a compiler object, resolving and generating gives the result that a new object gives for the set of modules added so far: the same code or an error. A module of a name that is there already is refused and leaves the object as it was, a failed call does not spoil later ones, repeating a call gives the same answer again, and the order in which the modules were added does not matter.",
  ["histories"],
  "all histories up to a depth of add_module (valid, clashing, replacing, dependent and broken modules), resolve_modules and generate calls on one object",
  "No test makes more than one pass over a compiler object.",
  [COMP, "asn-compiler/src/generator/int.rs", "asn-compiler/src/resolver/int.rs"], [("state kept between calls", COMP)], ["results of the calls, generated text"],
  state=[("modules, resolver, generator", "what was added, what was resolved, what was generated", COMP)])
p("K16", "A message about a wrong text points at what is wrong",
  "When the tokenizer or the parser refuses a text and its message gives a place, an item of the text starts at that line and column, an item that the message quotes is the one there, and the place lies within the definition (or module header) that is wrong and not behind the first wrong item. An item that is said to be unexpected is not one that is right where it stands. A broken lexical item is reported exactly where it starts, and the message about a name that is not defined quotes the name.",
  ["inputs"],
  "valid modules x every item x {replaced by, preceded by} items that stand nowhere in a specification, broken lexical items, numbers out of range, unknown names; every truncation; several layouts of lines, comments and tabs",
  "No test looks at a message.",
  [TOK, "asn-compiler/src/error.rs", PARS + "/module.rs", PARS + "/defs.rs", PARS + "/oid.rs"], [("span of a token", TOK), ("errors of the parser", "asn-compiler/src/error.rs")], ["line, column and quoted item of the message"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
