# Compiler properties: technique and note per claimed property (see gen_manifest.py).
T.update({
 "K01": ("exhaustive enumeration of texts over a lexical alphabet up to a length, compared with an independent lexer of X.680", "All texts of up to 5 (thorough 6) characters over 26 characters, and all pairs and triples of lexical items with every separator; assumes uniformity of characters within a class."),
 "K02": ("exhaustive enumeration of token sequences and single-token mutants of whole specifications through the real compiler, in isolated processes with time limits", "Token sequences of up to 3 (thorough 4) tokens in 32 contexts, single-token mutations of seed specifications, nesting and cycles up to 10,000 levels."),
 "K03": ("exhaustive enumeration of constraint expressions, each compiled by the real compiler and compared with set semantics evaluated point by point", "All values and ranges over 47 end points around powers of two, all unions/intersections/serial constraints/extension additions of up to 3 elements (4 for flat expressions) over small atoms, by reference and contained subtype, named numbers and value references, in 12 places of a module, and malformed constraints; EXCEPT is outside."),
 "K04": ("exhaustive enumeration of constraint expressions, each compiled by the real compiler; the chosen Rust integer is compared with the permitted values", "The specifications of K03; that an INTEGER beyond 64 bits is refused or wide enough."),
 "K05": ("exhaustive enumeration of SIZE constraint expressions over all string and list types, each compiled by the real compiler and compared with set semantics", "All sizes and ranges over 29 end points, unions/intersections/serial constraints/extension markers of up to 3 elements, 7 kinds of type, by reference, in 5 places of a module, named values, contents constraints, and malformed constraints; EXCEPT is outside."),
 "K06": ("exhaustive enumeration of SEQUENCE definitions, each compiled by the real compiler; the generated structs are compared with the specified components", "Up to 5 (thorough 6) components over three modes and 16 component types, every position of one or two extension markers, 12 shapes of additions, nesting to depth 3 (4), sizes around 64 and 256, by reference and as parameter, and malformed lists; the fields of extension additions, which the compiler does not generate, are outside."),
 "K07": ("exhaustive enumeration of CHOICE and ENUMERATED definitions, each compiled by the real compiler and compared with the X.680/X.691 numbering", "Choices of up to 5 (6) root alternatives and 4 (6) additions in every grouping; enumerations of up to 4 (5) items over every assignment of 6 (8) numbers, with additions; sizes around 64, 128, 256 and 65,536; malformed lists; modules with EXPLICIT, IMPLICIT and no tag default, where the index follows the tags of the alternatives (19 kinds of alternatives in choices of up to 4, nested choices); written tags are refused by the compiler."),
 "K08": ("exhaustive enumeration of parameterized definitions and their uses, each compiled by the real compiler; the generated types are compared with those of the substituted definitions", "All bodies of a catalogue with 1..3 parameters of every kind x actual parameters x up to 3 uses in every order, instances within instances, recursion through parameters, same names inside and outside, and wrong numbers and kinds of parameters."),
 "K09": ("exhaustive enumeration of information object sets, each compiled by the real compiler; the generated open types are compared with the objects", "All object sets of up to 4 objects (inline, by reference, nested sets, extension markers, optional fields omitted), field orders, keys by value references, direct and through parameterized containers, duplicates and wrong classes."),
 "K11": ("exhaustive enumeration of reference graphs, each compiled by the real compiler; the generated definitions are counted and errors demanded for undefined, cyclic and duplicate definitions", "All graphs of up to 3 (thorough 4) definitions with 9 kinds of edges, three modules with every import relation, 64 places of a name, every pair of definitions with the same name in one or two modules; up to 1,000 definitions in a module."),
 "K12": ("exhaustive enumeration of value and import chains x places of a value, each compiled by the real compiler and compared with the meaning of the literal value", "Chains of up to 3 references through up to 3 modules in every distribution, 40 places of a value, values around powers of two, names equal to dummy references, named numbers and enumeration items."),
 "K10": ("exhaustive exploration of all iteration orders of the compiler's hash tables (controlled standard library) and all permutations of definitions, modules and imports, on the real compiler", "A corpus of 254 specifications (all small reference graphs and every construct) x every permutation of up to 5 items x, at every point where a hash table is iterated over, every order (up to 4! per choice point, singly and in pairs; uniform orders beyond). The controlled tables replace std::collections in the compiled crate; the crate with the real tables is compared too."),
 "K13": ("explicit-state enumeration of specifications x values: each specification is compiled by the real compiler and rustc, and every value encoded and decoded by the generated code is compared with a reference X.691 model", "2301 specifications (every type, constraint, shape and nesting of a catalogue, hostile names) with up to thousands of values each at every bit position, restricted to types that the derive supports. Assumes the reference model refaper.rs is right."),
 "K14": ("exhaustive enumeration of tuples of input files and of conditions of the environment, each run of the real command line tool", "All tuples of up to 3 (thorough 4) files of 17 kinds, 150 conditions of the environment (rustfmt missing, failing, killed; stdout full, closed; options), four bundled specifications."),
 "K15": ("explicit-state enumeration of call histories on one real compiler object, compared with new objects", "All histories up to the depth in the evidence over 7 modules that depend on, clash with and break one another; the oracle is the code under test on a new object, which K01-K14 judge."),
 "K16": ("fault enumeration: every item of valid modules damaged in every listed way, the place in the message compared with that of the damage", "Complete for the listed modules, damages and layouts; messages without a place are not judged."),
})
