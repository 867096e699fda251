"""What each check explores: bounds, required reach marks, budgets."""
ASSUMPTIONS = [
    "the interpreter implements LLVM IR faithfully (the representative of every path is re-run natively and compared, and every refutation of a check is re-checked by the solver)",
    "rustc's LLVM IR at opt-level 1 with overflow checks is the code being judged; the natively compiled runner is the code a violation is replayed on",
    "memory allocation never fails; iteration order of hash maps is the one of a fixed hasher seed",
]
OPS = "all 31 primitive operations (bits in its three forms)"
PROPS = {
    "P01": {
        "bounds": {
            "quick": "every ground type with every width 0..65535 or none and every binary point; vectors of every size, nested up to 2; "
                     "field names of up to 5 characters over [A-Za-z0-9_$], every letter free, flipped or not; every nesting of vectors and bundles "
                     "(up to 2 fields) up to depth 2 over fixed leaves and keyword-like names",
            "thorough": "as quick, with vectors nested up to 3, names of up to 6 characters and every nesting up to depth 3",
        },
        "reach": 0b10,
    },
    "P02": {
        "bounds": {
            "quick": OPS + " with every 16-bit constant (the two of bits one at a time) and every binary point; names of up to 4 free characters, keywords and "
                     "keywords with a free character behind; selections with every index and field names of up to 3 characters; literals of up to 5 digits of "
                     "every width, and values next to multiples of 2^64 up to 2^258; every expression inside every other, two levels; every operation in "
                     "every place of a statement",
            "thorough": "as quick, with names of up to 5 characters, field names of up to 4, literals of up to 7 digits and values up to 2^386, three levels "
                        "(representatives of the operations on the upper two)",
        },
        "reach": 0b10,
    },
    "P03": {
        "bounds": {
            "quick": "every kind of statement with info and name of up to 2 free characters (info over a representative alphabet, see P06 for all characters); "
                     "exit codes of up to 5 digits of either sign and the ends of the 64-bit range; printf of up to 3 elements; every arrangement of "
                     "conditionals nested up to 2 with up to 2 statements per branch; up to 3 statements per branch; 5 levels with the inner conditional in "
                     "either branch, alone, first or last; declarations before, in either branch and after",
            "thorough": "as quick, with printf of up to 4 elements, pairs of nested conditionals, up to 4 statements per branch, 8 levels",
        },
        "reach": 0b10,
    },
    "P04": {
        "bounds": {
            "quick": "every kind of declaration under every name of up to 3 characters and keyword-like names, with infos of up to 2 characters; registers, "
                     "nodes and memory ports over every small expression in every role; memories of every depth of up to 5 digits and the last three of 64 "
                     "bits, every 16-bit latency, every read-under-write behaviour, up to 3 ports of every direction with free names; sequential and "
                     "combinational memories of every vector size; instances of either of two modules with free names; pairs of declarations at every place "
                     "of conditionals nested up to 2; declared things used in other declarations; declarations of the name of a port, memory or module they use",
            "thorough": "as quick, with names of up to 4 characters, depths of up to 7 digits, up to 4 memory ports, conditionals nested up to 3",
        },
        "reach": 0b10,
    },
    "P05": {
        "bounds": {
            "quick": "every circuit and module name of up to 3 characters and keyword-like names with infos of up to 2; up to 3 ports of both directions, one of "
                     "them with every name of up to 3 characters, any ground type or small aggregate, or an info; external modules with every definition and "
                     "parameter name of up to 2 characters; integers of up to 5 digits of either sign and both ends of the 64-bit range; 48 representative "
                     "doubles and 500 of up to two digits (concrete values: floating point is not encoded); strings of up to 2 characters; up to 3 parameters; "
                     "up to 3 modules in every small instantiation pattern",
            "thorough": "as quick, with names of up to 4 characters, up to 4 ports, integers of up to 7 digits, 5000 doubles, up to 4 parameters",
        },
        "reach": 0b10,
    },
    "P06": {
        "bounds": {
            "quick": "infos and strings of up to 3 and format strings of up to 3 free ASCII characters (all 128), 4 of those that are special; every character "
                     "of two to four bytes (all of Unicode) with a free neighbour; an info in each of 21 places, ended by a bracket or backslash; format "
                     "strings of up to 4 texts and specifiers; infos, strings and format strings with escapes as somebody else may write them (4 characters, "
                     "format strings 4 with 0 to 3 arguments), read against an independent unescaping",
            "thorough": "as quick, with one character more, two in every place",
        },
        "reach": 0b111110110,
    },
    "P07": {
        "bounds": {
            "quick": "decimal literals of up to 5 free digits and binary, octal and hexadecimal ones of up to 3 free letters or digits, each sign, signed or not, "
                     "with and without width; anything of up to 4 characters between the parentheses; omitted widths for every value of 16 bits and next to "
                     "every power of two up to 2^62; values of up to 230 bits with free digits anywhere; literals around 65535 bits; 15 numeric fields with "
                     "every number of up to 5 digits, numbers around the ends of their range, multiples of the range, and every sequence of 2 characters "
                     "that is no number; doubles of 7 integer parts, 31 fractions and exponents from -12 to 12, and 5 numbers around the end of their range",
            "thorough": "as quick, with one digit or character more and values of up to 330 bits",
        },
        "reach": 0x1ffe,
    },
    "P08": {
        "bounds": {
            "quick": "every ASCII text of up to 4 characters; up to 3 free ASCII characters after each of 8 beginnings of a circuit; a text of 900 characters using "
                     "every construct, cut off anywhere, with any ASCII character added or replaced anywhere, with up to 13 characters missing anywhere, "
                     "with 3 kinds of wide characters anywhere; sequences of up to 3 tokens in the place of an expression (21 tokens), type (19), statement (28), "
                     "memory entry (15), module (19, six contexts); up to 3 lines of 15 kinds at 2 depths; short texts, beginnings, cuts, lines, memories and modules also read module by module beyond errors; 45 operations and 5 statements with up to 4 and 5 arguments; 12 constructs nested 40 times around a free "
                     "character; every sequence of up to 2 bytes in an info; at most 20 million interpreted instructions for each text",
            "thorough": "as quick, with one character, token or byte more, 9 kinds of wide characters, 4 depths",
        },
        "reach": 0b1111110,
        "budget": {"thorough": 1500},
    },
    "P09": {
        "bounds": {
            "quick": "a text of 1200 characters using every construct: cut off anywhere with up to one free character behind, any ASCII character added or "
                     "replaced anywhere, up to 6 characters missing anywhere, a line of 30 kinds added anywhere at 4 depths, up to 3 lines missing, any two "
                     "lines exchanged, any line repeated anywhere, any token of any line dropped, doubled or exchanged; sequences of up to 3 tokens in 7 "
                     "contexts of expressions and 5 of types, up to 2 in 12 contexts of statements and 7 of modules; up to 3 lines of 10 kinds at 2 depths; "
                     "memories of up to 2 further entries; every part of a register and a memory port replaced; 45 operations and 5 statements with up to 4 and 5 arguments; names of up to 1 free character in 18 places",
            "thorough": "as quick, with one character, token or line more, lines at 7 depths",
        },
        "reach": 0b11110,
        "budget": {"thorough": 1500},
        "assumptions": ["printing shows what was read (P01 to P07)"],
    },
    "P10": {
        "bounds": {
            "quick": "every assignment of names of one free character to the declarations and uses of: straight-line programs of up to 2 statements of 8 kinds "
                     "behind 2 ports and a module; two declarations and a use; declarations before, in both branches (or an else-when) and after, with the use "
                     "in 7 places; 3 levels of blocks with a declaration, another one and a use at any level; memories in blocks; 3 modules with instances of "
                     "free names; names of another module; added modules; a free name of up to 2 characters in 45 places of expressions and statements; "
                     "names of up to 2 free characters; pairs of 46 keywords as names",
            "thorough": "as quick, with programs of up to 3 statements, up to 5 levels of blocks, 4 modules, names of up to 3 characters, all kinds of declarations",
        },
        "reach": 0b110,
        "budget": {"thorough": 1500},
    },
    "P11": {
        "bounds": {
            "quick": "a text of 45 lines using every construct: up to 2 blanks (space or tab) more in any one place between two tokens, none in any one line or in all where "
                     "none is needed, up to 2 everywhere; any one line ended by a line feed or carriage return and line feed behind a blank and a comment of up to 2 "
                     "free characters, all lines ended by up to two of these, in front of the first line, behind the last; up to 2 empty or comment lines "
                     "behind any line; any block indented by 1 to 8, the others by 1 to 3; 8 blocks by 1 or 4 each; any line of 15 in nested conditionals with "
                     "any indentation up to 11; up to 4 lines of 4 kinds at 3 to 5 depths; memory entries at 4 depths; any other blank character in an indentation",
            "thorough": "as quick, with up to 3 blanks, up to 2 line ends (3 for all), 3 empty lines, indentation up to 16, any two lines with any indentation, up to 5 lines of 4 kinds",
        },
        "reach": 0b111110,
        "budget": {"thorough": 1500},
    },
    "P12": {
        "bounds": {
            "quick": OPS + " x all ground operand kinds x every 16-bit width or none x every binary point or none x every 16-bit constant (no bound on "
                     "the numbers); aggregate and untyped operands; operands that are themselves expressions, one level",
            "thorough": "as quick",
        },
        "reach": 0x3e,
    },
    "P13": {
        "bounds": {
            "quick": OPS + " x all partially known ground operand types x every later choice of the unknown widths and points; mux and validif "
                     "over ground types, vectors and bundles of them; operations over operations, one level (17 inner operations)",
            "thorough": "as quick, with all inner operations",
        },
        "reach": 0b10,
    },
    "P14": {
        "bounds": {
            "quick": "all pairs of ground types; all pairs of types of depth 2 and 1 (bundles up to 2 fields, names of a free letter, free flips, "
                     "free 16-bit vector sizes, unknown or free widths); weak equivalence for pairs of depth 2; triples of depth 1; paths up to depth 3; field names of up to 3 free characters; bundles of up to 9 fields that differ in one name, "
                     "flip or type, in order or in length",
            "thorough": "as quick, with pairs of depth 2 and 2, triples with two kinds of leaves, paths up to depth 4, names of up to 4 characters, up to 12 fields",
        },
        "reach": 0xc8,
        "budget": {"thorough": 1500},
    },
    "P15": {
        "bounds": {
            "quick": "all orientations; every type of depth up to 2 (bundles up to 2 fields, free names, flips, vector sizes, widths); every path of "
                     "vectors and bundles up to depth 5",
            "thorough": "as quick, with paths up to depth 7",
        },
        "reach": 6,
    },
    "P16": {
        "bounds": {
            "quick": "field selections from bundles of up to 3 fields with free names of up to 2 characters; index and access of every small type with every "
                     "index; selection paths up to depth 4; mux of all pairs of types up to depth 1; faults below up to 2 further levels; literals of every "
                     "64-bit value and width",
            "thorough": "as quick, with up to 4 fields, paths up to depth 6, mux of types up to depth 2, faults below up to 3 levels",
        },
        "reach": 0x3fe,
    },
    "P17": {
        "bounds": {
            "quick": "every kind of entity over small types (memory ports of every kind of memory); selection paths up to depth 4 over roots of every flow, every flip on the path free; "
                     "all computed values; every port field of memories and instances",
            "thorough": "as quick, with paths up to depth 6",
        },
        "reach": 0xfe,
    },
    "P18": {
        "bounds": {
            "quick": "every 64-bit depth; every data type of depth up to 2 (bundles up to 2 fields) with free widths, names and flips for every kind of port; "
                     "up to 3 ports in any mix; combinational and sequential memories over every data type of depth up to 1",
            "thorough": "as quick, with up to 4 ports",
        },
        "reach": 0x3e,
    },
    "P19": {
        "bounds": {
            "quick": "modules of up to 4 ports with free names (up to 2 characters), directions and small types; port lookup among up to 3 ports with free "
                     "names of up to 2 characters; module lookup among one added and one parsed module; instances in parsed circuits by a free name; lookup of "
                     "every ASCII text of up to 3 characters among 6 names",
            "thorough": "as quick, with up to 5 ports and lookup among 4, and of texts of up to 4 characters",
        },
        "reach": 0x1fe,
    },
    "P20": {
        "bounds": {
            "quick": "all pairs (associativity: all triples of known formats) of ground types with every 16-bit width and point, no bound on the numbers; "
                     "all pairs of types up to depth 2 with up to 2 fields, free names and flips; combinators of somebody else that fail in 3 ways, "
                     "on ground types, single fields and types up to depth 2",
            "thorough": "as quick, with pairs of types up to depth 3",
        },
        "reach": 0x1fe,
    },
    "P21": {
        "bounds": {
            "quick": "expressions up to depth 3 (one deep operand per node) with every leaf a free number; shared sub-expressions up to 3 levels; statements nested "
                     "up to depth 2 with up to 2 statements per branch; else-chains up to 4; modules of up to 2 instances in any branch; branches of up to 3 statements of 4 kinds",
            "thorough": "as quick, with expressions up to depth 4, else-chains up to 5, modules of up to 3 instances, branches of up to 4 statements",
        },
        "reach": 0x1e,
    },
    "P22": {
        "bounds": {
            "quick": "circuits of up to 3 modules of 4 kinds, instances of any other, 24 kinds of faults, any of 4 top modules, malformed heads; stopping after any "
                     "number of modules; 16 fragments inserted at every position of a text of 170 characters, read in every way; iterators of up to 3 modules "
                     "and errors; streams that deliver a text of 150 bytes with characters of up to 4 bytes in every sequence of 4 pieces of 6 sizes "
                     "or interruptions, then in pieces of 1, 2 or any size, or split at any position and once more within 5 bytes, with interruptions; 8 kinds of read errors after any "
                     "number of bytes, also behind a complete text; any non-ASCII byte and any two at any position of a text of 70 bytes; any 3 bytes in a comment, "
                     "an info or at the end",
            "thorough": "as quick, with up to 4 modules and items, pairs of fragments, sequences of 6 pieces, splits at any two positions, any 4 bytes",
        },
        "reach": 0b11110,
        "budget": {"thorough": 1500},
    },
    "P23": {
        "bounds": {
            "quick": "every acyclic graph of instances over up to 4 modules, instances in either order, of shared or copied modules, every module as top module; every "
                     "place of 12 in conditionals nested up to 4 for each instance of 3 modules, of 3 places for 4 modules; pairs of any two places; up to 4 "
                     "instances of 2 modules; texts of up to 4 modules with any instances and any top module; 2 to 4 parameters in every order; chains of up to 7 modules; "
                     "module names of up to 2 free characters; 3 modules with and without ports, statements and instances, or external",
            "thorough": "as quick, with graphs and texts of up to 5 modules, 6 places for 4 modules, up to 5 parameters and instances",
        },
        "reach": 0b11110,
        "budget": {"thorough": 1500},
    },
    "P24": {
        "bounds": {
            "quick": "memories of any depth, widths and latencies (16 and 64 bits, no bound), attributes set up to 3 times in any order; up to 4 ports, added in "
                     "any grouping; registers with a reset set, removed or replaced in 7 ways; fields, ports, modules (up to 2 ports, 2 statements), external "
                     "modules (up to 2 parameters of 3 kinds), circuits, infos, entities of 7 kinds, statements of 13 kinds, " + OPS + " and the other expressions: "
                     "built from names of up to 2 free characters and free 16-bit numbers, and compared with one where any one part is any other; types of "
                     "every ground kind, their vectors and bundles of up to 2 fields",
            "thorough": "as quick, with attributes set up to 4 times, more ports at once, bundles of up to 3 fields",
        },
        "reach": 0x3fffe,
    },
    "P25": {
        "bounds": {
            "quick": "a text of 40 lines using every construct: any line replaced by one of 14 that are malformed or by a question mark and a free character; any "
                     "name used in it replaced by one that is not declared; any character replaced by a free one; cut off anywhere; up to 2 empty or "
                     "comment lines of 6 kinds put in front of a malformed line, in the middle or at the start; module by module, as a whole or without "
                     "its head; 8 kinds of errors from outside with texts of up to 2 free characters",
            "thorough": "as quick, with two characters replaced and up to 3 lines more",
        },
        "reach": 0x1fe,
    },
    "P26": {
        "bounds": {
            "quick": "a text of 1200 characters using every construct: cut off anywhere with up to one free character behind, any ASCII character added or "
                     "replaced anywhere, up to 6 characters missing anywhere, a line of 30 kinds added anywhere at 4 depths, up to 3 lines missing, any two "
                     "lines exchanged, any line repeated anywhere, any token of any line dropped, doubled or exchanged; sequences of up to 3 tokens in 7 "
                     "contexts of expressions and 5 of types, up to 2 in 12 contexts of statements and 7 of modules; up to 3 lines of 10 kinds at 2 depths; "
                     "memories of up to 2 further entries; every part of a register and a memory port replaced; 45 operations and 5 statements with up to 4 and 5 arguments; names of up to 1 free character in 18 places; every character of two to four bytes in these and in texts; doubles of 7 integer parts, "
                     "5 fractions and exponents up to 319; parameters of up to 4 characters; literals of up to 3 digits in 4 bases; escapes of up to 3 characters",
            "thorough": "as quick, with one character, token or line more, lines at 7 depths",
        },
        "reach": 0x3fe,
        "budget": {"thorough": 1500},
    },
    "P27": {
        "bounds": {
            "quick": "every sequence of up to 6 (entities only: 8) steps that add an entity or a memory under one of two names (5 steps: three names), open or close a scope; "
                     "three names of up to 4 characters each; up to 3 ports of any width, up to 3 entities given at the start; entities of all 7 kinds, two at a time; "
                     "up to 5 steps below a context of somebody else and on a copied context; modules under names of up to 3 characters at 3 levels; "
                     "names and numbers of entities of sizes 7, 11, 18, 34, 66, 130, 260, scopes of depths 7, 11, 18, 34, 66",
            "thorough": "sequences of up to 8 (11, 7) steps, names of up to 6 characters, sizes up to 1030, depths up to 130",
        },
        "reach": 0x1fffe,
        "budget": {"thorough": 1500},
    },
}
NOT_YET = {}

# Sizes far beyond the small cases: everything fixed but for one free place at
# the start, in the middle or at the end.
_SIZES = "with sizes 7, 11, 18, 34, 66, 130, 260, 520, 1030 (thorough: also 2060) and depths 7, 11, 18, 34, 66 (thorough: also 130), one place (first, middle or last) free, the rest fixed: "
_LARGE = {
    "P01": "field names and bundles of that size, nesting of that depth",
    "P02": "names of that length, expressions of that depth",
    "P03": "names, infos, texts, lists of statements, chains of alternatives, argument lists of that size, nesting of that depth",
    "P04": "names, memory ports and declarations of that size",
    "P05": "names, texts, lists of ports, parameters, modules and instances of that size, chains of modules of that depth",
    "P06": "texts of that length with one or only special characters, printf of that many elements",
    "P10": "(lists: quick up to 520) names, lists of declarations, ports and modules of that size, uses that many levels apart",
    "P11": "indentation, gaps, comments and numbers of blank lines of that size, nesting of that depth with a line at any level or between two",
    "P12": "operands and operations that deep",
    "P13": "chains of 7 (12) operations",
    "P14": "bundles, nesting and names of that size",
    "P15": "bundles and nesting of that size",
    "P16": "bundles, nesting, selections and names of that size",
    "P17": "bundles, nesting and selections of that size",
    "P18": "memories of that many ports, data types of that depth",
    "P19": "modules of that many ports, that many modules, names of that length",
    "P20": "bundles and nesting of that size",
    "P21": "lists of statements of that size, statements and expressions of that depth",
    "P22": "texts of that many modules or statements (quick: up to 520), whole and in two pieces; texts of 4 096 to 140 000 (thorough: 300 000) bytes, most of it one comment, name, info or blank, whole and in pieces of 1 000 to 65 536 bytes",
    "P23": "that many modules used by one (depths only), chains of modules of that depth",
    "P24": "memories, modules, statements, parameters of that size, expressions of that depth",
    "P25": "texts of that many lines or modules with one malformed line, malformed lines of that length",
}
_LARGE["P27"] = "numbers of entities, memories and scopes of that size"
_MIXED = "; bundles of up to 3 (thorough: 4) fields of 6 kinds in any order, flipped or not, two levels of orientations"
_OTHER = {
    "P01": _MIXED,
    "P14": _MIXED + ", and any two kinds of leaves below every nesting",
    "P15": "; bundles of up to 4 (thorough: 5) fields of 6 kinds in any order, flipped or not",
    "P16": _MIXED,
    "P18": "; data types that are bundles of up to 4 fields of 6 kinds in any order",
    "P20": _MIXED + "; combiners that are not the library's own (asymmetric ones, failing ones)",
    "P07": "; operands that share one expression",
    "P12": "; operands that share one expression, computed values of every operation as operands (typed again from their type alone)",
    "P13": "; operands that share one expression",
    "P17": "; selections of one shared base at several places",
    "P21": "; expressions in which the same sub-expression occurs up to 2^11 (thorough: 2^13) times",
    "P23": "; instances that share modules in every pattern",
    "P08": "; each of 31 further snippets, or a repetition of up to 6 (thorough: 9) of its tokens, behind every token of every line of a text that uses every construct",
    "P09": "; each of 31 further snippets, or a repetition of up to 6 (thorough: 9) of its tokens, behind every token of every line of a text that uses every construct",
    "P26": "; each of 31 further snippets, or a repetition of up to 6 (thorough: 9) of its tokens, behind every token of every line of a text that uses every construct",
}
for _p, _t in _LARGE.items():
    for _k in PROPS[_p]["bounds"]:
        PROPS[_p]["bounds"][_k] += "; " + _SIZES + _t
for _p, _t in _OTHER.items():
    for _k in PROPS[_p]["bounds"]:
        PROPS[_p]["bounds"][_k] += _t
