#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Types survive printing and parsing unchanged",
  "Any type written out as FIRRTL text and read back is the identical type: ground kind, width (including an absent one), fixed-point offset, vector sizes, bundle field names, order, flips and nesting. This holds for every representable width, offset, vector size and admissible field name, including names that look like keywords.",
  ["inputs", "programs"], "all types that can be built (bounded nesting and name length), with all width, point and vector-size values",
  "The quickcheck tests sample widths and field names from a fixed alphabetic set and never produce reset types, keyword-like names or chosen extreme values.",
  ["src/types/parsers.rs", "src/types/type.rs", "src/types/ground.rs", "src/types/display.rs"],
  [("ground type, bit width and point offset printing", "src/types/ground.rs, src/types/display.rs"),
   ("type, field and width parsers", "src/types/parsers.rs"),
   ("decimal numeral parser", "src/parsers.rs")])

p("P02", "Expressions survive printing and parsing unchanged",
  "Any expression over declared entities - references, field, index and access selections, mux, validif, literals and every primitive operation with its constant operands - that is written out and read back is the identical expression tree. No operand is swapped, dropped or replaced and no operation is read as another one.",
  ["inputs", "programs"], "all expressions up to a nesting bound, all operations, all values of constant operands and names",
  "The round-trip tests draw random trees from a generator; operand order and constants for particular operations, keyword-like names and extreme constants are hit by luck or not at all.",
  ["src/expr.rs", "src/expr/parsers.rs", "src/expr/primitive.rs"],
  [("expression printing", "src/expr.rs"), ("operation printing", "src/expr/primitive.rs"),
   ("expression and operation parsers", "src/expr/parsers.rs")])

p("P03", "Statements survive printing and parsing unchanged",
  "Any statement sequence - connects, partial connects, skip, invalidation, attach, when/else with arbitrary nesting, stop, printf - written out at any indentation and read back is the identical sequence, with every statement's info text, optional name, operand roles, exit code and branch membership. A statement never moves into or out of a conditional branch.",
  ["inputs", "programs"], "all statement lists up to a size and nesting bound with non-empty branches, all operand choices, with and without info and names",
  "The tests compare one generated statement at a time without infos; info on the different statement kinds, else-if chains and dangling-else shapes are not quantified over.",
  ["src/stmt.rs", "src/stmt/parsers.rs", "src/stmt/display.rs", "src/indentation.rs"],
  [("statement printing", "src/stmt.rs"), ("statement, conditional and block parsers", "src/stmt/parsers.rs"),
   ("indentation levels", "src/indentation.rs")])

p("P04", "Declarations survive printing and parsing unchanged",
  "Any declaration - wire, register with or without reset, node, memory with all its attributes and ports, sequential or combinational memory, memory port of each direction, instance - written out and read back is the identical declaration with its info text. Clock, reset signal, reset value, address, depth, latencies, read-under-write behaviour, port kinds and port order are each kept in their role.",
  ["inputs", "programs"], "all declarations up to a size bound with all attribute values and present/absent combinations",
  "Existing tests sample single entities without info and never force each combination of optional attributes and boundary values.",
  ["src/memory/parsers.rs", "src/memory/display.rs", "src/memory/mem.rs", "src/memory/simple.rs", "src/memory/register.rs", "src/stmt/parsers.rs", "src/stmt/display.rs"],
  [("memory, register and port parsers", "src/memory/parsers.rs"), ("declaration printing", "src/stmt/display.rs, src/memory/display.rs"),
   ("register and simple memory printing", "src/memory/register.rs, src/memory/simple.rs")])

p("P05", "Modules and circuits survive printing and parsing unchanged",
  "Any circuit - top module, instantiated modules, external modules with definition name and integer, floating-point and string parameters, ports with directions, types and infos - written out and read back is an equal circuit. Parameter values keep their kind and exact value, ports keep their order, and each module keeps its own info.",
  ["inputs", "programs"], "all circuits up to a size bound (modules, ports, parameters), all parameter values within the stated widths",
  "The module tests deliberately exclude floating-point parameters and infos, and circuits are sampled.",
  ["src/circuit.rs", "src/circuit/parsers.rs", "src/module.rs", "src/module/parsers.rs"],
  [("circuit and module printing", "src/circuit.rs, src/module.rs"), ("circuit, module, port and parameter parsers", "src/circuit/parsers.rs, src/module/parsers.rs")])

p("P06", "Every text value survives escaping and unescaping",
  "Info texts, string parameters and printf format strings containing any characters whatsoever - quotes, brackets, backslashes, percent signs, tabs, newlines, non-ASCII - are read back with exactly the characters that were written, and never end early or swallow what follows. Format specifiers stay attached to their argument expressions, in order.",
  ["inputs"], "all strings up to a length bound over all characters, in each of the three positions",
  "The tests draw a handful of ASCII strings; adversarial combinations such as a trailing backslash before a closing delimiter are a vanishing fraction.",
  ["src/parsers.rs", "src/info.rs", "src/module.rs", "src/module/parsers.rs", "src/stmt/display.rs", "src/stmt/parsers.rs"],
  [("unquoted string parser", "src/parsers.rs"), ("info printing and parsing", "src/info.rs"),
   ("parameter string printing", "src/module.rs"), ("format string printing and parsing", "src/stmt/display.rs, src/stmt/parsers.rs")])

p("P07", "Integer literals denote the value and width that was written",
  "A literal in decimal, binary, octal or hexadecimal notation, with or without sign and leading zeros, denotes exactly the written integer; an explicit width is kept, and an omitted width becomes one that can represent the value in the literal's signedness. Malformed literals, digits outside the radix and numbers too large for their field are rejected rather than wrapped or truncated.",
  ["inputs"], "all literal texts up to a digit bound in every radix, and all numerals in width, index, latency and code positions",
  "Tests only re-read decimal literals the printer produced; radix notation, signs, inferred widths and out-of-range numerals are never exercised.",
  ["src/expr/parsers.rs", "src/parsers.rs", "src/types/parsers.rs"],
  [("number literal parser", "src/expr/parsers.rs"), ("decimal and float parsers", "src/parsers.rs"), ("bit width parser", "src/types/parsers.rs")])

p("P08", "Reading any text ends in a result, never in a crash or a hang",
  "For every input text, complete or malformed, parsing a circuit - directly, module by module, or from a reader - terminates and yields either a value or an error that can be displayed. It never panics, overflows, reads out of range or loops, and a circuit it does yield can be printed and inspected without panicking.",
  ["inputs"], "all byte strings up to a length bound in every syntactic position of a set of skeleton texts",
  "Tests feed only well-formed text produced by the library's own printer.",
  ["src/parsers.rs", "src/circuit/parsers.rs", "src/module/parsers.rs", "src/stmt/parsers.rs", "src/expr/parsers.rs", "src/types/parsers.rs", "src/memory/parsers.rs", "src/error.rs"],
  [("all parsers", "src/*/parsers.rs"), ("error conversion", "src/error.rs")])

p("P09", "A successful parse accounts for the whole input",
  "When a text is accepted as a circuit, every line of it has been read as what it says and is represented in the result (modules that the top module does not need are checked but not kept): trailing garbage, a malformed line at any position (including inside the top module and after it), superfluous or missing operands, tokens and separators, and unterminated constructs all make the parse fail with an error. Nothing the author wrote is silently dropped or reinterpreted.",
  ["inputs"], "all single-position insertions, replacements and truncations (bounded length) of accepted texts",
  "No test checks that a bad text is rejected.",
  ["src/circuit.rs", "src/circuit/parsers.rs", "src/module/parsers.rs", "src/stmt/parsers.rs", "src/parsers.rs"],
  [("module iteration until end of input", "src/module/parsers.rs, src/circuit.rs"), ("statement lists and line endings", "src/stmt/parsers.rs, src/parsers.rs"),
   ("keyword and identifier boundaries", "src/parsers.rs")])

p("P10", "Every name resolves to the declaration that is in scope",
  "A reference in a parsed text denotes the entity with exactly that name which was declared earlier in the same module (as a port or by a statement), a memory port denotes the memory of that name, and an instance denotes the module of that name defined earlier in the same circuit. Names that are not declared, declared only later, or declared in another module make the parse fail; inner declarations take precedence inside their block and remain visible afterwards.",
  ["inputs", "programs"], "all assignments of (bounded-length) names to the declarations and uses of a set of program skeletons",
  "Tests generate declarations so that every name resolves; no test covers an unresolved, shadowed, re-used or out-of-order name.",
  ["src/stmt/context.rs", "src/stmt/parsers.rs", "src/module/parsers.rs", "src/memory/parsers.rs"],
  [("scoped contexts", "src/stmt/context.rs"), ("known-module table", "src/module/parsers.rs"), ("identifier parser", "src/parsers.rs")])

p("P11", "Layout carries no meaning beyond line structure and indentation",
  "Blank lines, comments at line ends, extra spaces or tabs between tokens, carriage returns before newlines, and a different (consistent) indentation width never change what a text means. Indentation itself does: a line belongs to the innermost block whose exact indentation it has, and a line whose indentation matches no open block makes the parse fail.",
  ["inputs"], "all placements of bounded blank/space/tab/comment material at every token gap and line end of skeleton texts; all indentation widths up to a bound",
  "The tests only read the printer's own canonical layout.",
  ["src/parsers.rs", "src/indentation.rs", "src/stmt/parsers.rs", "src/module/parsers.rs", "src/memory/parsers.rs"],
  [("line ending and comment parser", "src/parsers.rs"), ("indentation parser", "src/indentation.rs"), ("spaced tokens", "src/parsers.rs")])

p("P12", "Primitive operations have the result type FIRRTL prescribes",
  "For every primitive operation and all operand types, widths, binary points and constant parameters, the reported type is the one the FIRRTL specification prescribes whenever the operand widths are known and the result fits the width representation, and operands whose kinds the operation cannot combine (mixed kinds in arithmetic, aggregates, a non-fixed operand of a precision operation) are reported as an error. Computing a type never panics or wraps around.",
  ["inputs"], "all operations x operand ground types x 16-bit widths, points and parameters",
  "Tests check a few identities on sampled operands; no test compares result widths with the specification over the 16-bit ranges.",
  ["src/expr/primitive.rs", "src/types/ground.rs", "src/types/combinator.rs"],
  [("operation typing", "src/expr/primitive.rs"), ("fixed-point combination", "src/types/ground.rs")])

p("P13", "A reported type never conflicts with widths inferred later",
  "If some operand widths or points are unknown, the type reported for an expression contains only facts that remain true for every later choice of the unknown ones: instantiating the unknowns first and typing afterwards gives the same kind and, wherever the first result already stated a width or point, the same value.",
  ["inputs"], "all expressions (bounded depth) x all partially known operand types x all instantiations of the unknown widths",
  "Relates two typings of the same expression for every instantiation; tests only look at single typings of sampled operands.",
  ["src/expr/primitive.rs", "src/expr.rs", "src/types/ground.rs", "src/types/combinator.rs"],
  [("operation typing with unknown widths", "src/expr/primitive.rs"), ("maximum-width combination", "src/types/ground.rs")])

p("P14", "Type equivalence and weak equivalence are lawful",
  "Type equivalence is reflexive, symmetric and transitive, ignores widths and points, and separates types that differ in ground kind (including the kind of reset), vector size, field name, field order, field count or field orientation at any depth. Weak equivalence holds exactly if the two types are equivalent once orientation is pushed down to the leaves.",
  ["inputs", "programs"], "all pairs and triples of types up to a depth and arity bound",
  "The tests check reflexivity-like facts on sampled types; a pair differing in one orientation deep inside is not in the sample.",
  ["src/types/type.rs", "src/types/ground.rs", "src/types/oriented.rs"],
  [("equivalence of types", "src/types/type.rs"), ("equivalence of ground types", "src/types/ground.rs"), ("oriented types", "src/types/oriented.rs")])

p("P15", "Orientation composes and passivity is exact",
  "Orientations combine like parity, flipping twice is the identity, and pushing an orientation into a type flips each leaf exactly as often as flips lie on the path to it, keeping names, order, sizes, kinds and widths. A type is passive exactly if no field in it is flipped, at any depth.",
  ["inputs", "programs"], "all types up to a depth and arity bound and both root orientations",
  "Existing tests sample; parity over nested flips is a for-all statement.",
  ["src/types/orientation.rs", "src/types/oriented.rs", "src/types/type.rs"],
  [("orientation arithmetic", "src/types/orientation.rs"), ("orienting and flipping types", "src/types/type.rs, src/types/oriented.rs"), ("passivity", "src/types/type.rs")])

p("P16", "Selections and multiplexers have the type of what they select",
  "A field selection has the type of the field with that name, an index or access has the vector's element type, a conditionally valid value has its value's type, and a multiplexer has the common type of both branches with the larger width (or unknown if either is) at each leaf. Selecting a missing field, indexing a non-vector, or multiplexing types of different shape is reported as an error naming the offending expression.",
  ["inputs", "programs"], "all base types up to a bound, all field names, indices and branch type pairs",
  "Tests sample compatible expressions only; error cases and leaf-wise widths are not covered.",
  ["src/expr.rs", "src/types/type.rs", "src/types/ground.rs"],
  [("expression typing", "src/expr.rs"), ("field and vector accessors", "src/types/type.rs"), ("type combination", "src/types/type.rs, src/types/ground.rs")])

p("P17", "Data flow follows the entity and the flips on the path",
  "Input ports, nodes, instances, memories, literals and computed values are sources, output ports are sinks, wires and registers are both, and memory ports follow their direction (undetermined if inferred). Selecting a flipped field exchanges source and sink, selecting anything else keeps the flow, so the flow of any selection path depends only on the root and the parity of flips on it.",
  ["inputs", "programs"], "all entities x all selection paths up to a depth bound over all field orientations",
  "Tests generate expressions from a wanted flow using the same rules; there is no independent statement.",
  ["src/expr.rs", "src/stmt/entity.rs", "src/memory/simple.rs", "src/memory/mem.rs", "src/memory/register.rs", "src/module.rs"],
  [("expression flow", "src/expr.rs"), ("entity flow", "src/stmt/entity.rs"), ("port flow", "src/module.rs, src/memory/simple.rs")])

p("P18", "Memories expose exactly the specified port bundles",
  "A memory's type has one flipped field per port, in order, each with exactly the specified data, address, enable, clock, mode and mask fields and directions; masks mirror the data type with one bit per ground leaf. The address field is as narrow as possible while still addressing every element, for every depth; a combinational or sequential memory port has the element type of its memory.",
  ["inputs", "programs"], "all depths over the full integer range, all port lists and data types up to a bound",
  "Tests have no oracle for the bundle shape, and address widths at powers of two over 64 bits cannot be sampled.",
  ["src/memory/mem.rs", "src/memory/simple.rs", "src/types.rs"],
  [("memory typing", "src/memory/mem.rs"), ("address width", "src/types.rs"), ("simple memory port typing", "src/memory/simple.rs")])

p("P19", "Instances and modules expose exactly their ports",
  "The type of an instance has one field per port of the instantiated module, with the port's name and type, in order, flipped exactly for inputs. Looking up a port by name yields the first port with precisely that name, and looking up a module yields the module most recently defined or added under precisely that name, or nothing.",
  ["inputs", "programs"], "all port lists up to a bound, all names and query names up to a length bound",
  "Tests only use instances through sampled round trips.",
  ["src/module.rs", "src/module/parsers.rs", "src/stmt/entity.rs"],
  [("instance typing", "src/module.rs"), ("port lookup", "src/module.rs"), ("known-module lookup", "src/module/parsers.rs")])

p("P20", "Combining widths is exact, commutative and never overflows",
  "The maximum of two fixed-point types is the narrowest format that keeps the integer and fractional bits of both operands, and is unknown if it does not fit the width representation; combining is commutative, and associative and idempotent wherever the widths are known and the results fit; it yields unknown exactly where an input is unknown or the result does not fit. Combination fails exactly for types of different shape, and reports the given pair or the corresponding sub-types responsible.",
  ["inputs"], "all pairs and triples of 16-bit widths and signed 16-bit points; all type pairs up to a bound",
  "16-bit boundary pairs are out of reach for sampling; no test states the laws.",
  ["src/types/ground.rs", "src/types/combinator.rs", "src/types/type.rs"],
  [("fixed-point maximum", "src/types/ground.rs"), ("width combinators", "src/types/combinator.rs"), ("combination of bundles and vectors", "src/types/type.rs")])

p("P21", "Traversals visit every contained element, exactly once",
  "The references of an expression, the operands of an operation, the declarations and instantiations of a statement and the modules referenced from a module are each reported completely, once per occurrence, and nothing else - however deeply they are nested in operands, selections, branches and chained alternatives.",
  ["inputs", "programs"], "all expressions and statement trees up to a size bound",
  "Tests never compare a traversal with the structure it walks.",
  ["src/expr.rs", "src/expr/primitive.rs", "src/stmt.rs", "src/module.rs"],
  [("expression traversal", "src/expr.rs, src/expr/primitive.rs"), ("statement traversal", "src/stmt.rs"), ("referenced modules", "src/module.rs")])

p("P22", "All ways of reading a circuit agree",
  "Parsing a buffer, consuming it module by module, building the circuit after successfully consuming any number of modules, and reading from a stream that delivers data in arbitrary pieces all give the same modules in definition order, the same circuit and the same success or failure. A missing top module, invalid UTF-8 or a read error at any point is reported as an error, never as a circuit built from part of the input.",
  ["inputs", "histories", "fault_sequences"], "all splits of an input into read chunks, all positions of a read error or invalid byte, all numbers of modules consumed first",
  "No test uses the streaming interfaces with short reads, failures or partial consumption.",
  ["src/circuit.rs", "src/circuit/parsers.rs", "src/module/parsers.rs", "src/error.rs"],
  [("reading from a stream", "src/circuit.rs"), ("module consumer", "src/circuit.rs"), ("module iterator", "src/module/parsers.rs")])

p("P23", "Every needed module is printed once, before it is used",
  "Printing a circuit emits the top module and every module reachable from it through instances at any nesting depth, each exactly once, each after all modules it instantiates, and no other module; this holds for every sharing pattern of instances. Printing is repeatable: printing what was read back gives the same text again.",
  ["programs"], "all acyclic instantiation graphs up to a module bound, instances placed in any (nested) statement position",
  "Test circuits are sampled with little sharing; a diamond with instances inside branches is not forced.",
  ["src/circuit.rs", "src/module.rs", "src/stmt.rs"],
  [("recursive module printing", "src/circuit.rs"), ("referenced modules", "src/module.rs")])

p("P24", "Items are exactly what they were built from, and compare accordingly",
  "Whatever a memory, port, register, field, type, module, external module, circuit, instance, entity, statement or expression was built from - in any order of builder steps, by any conversion - is what its accessors report: names, infos, widths, depths, latencies, resets, ports in order, parameters. Attributes not set keep their documented default, the last setting counts, setting one changes no other. Two items are equal exactly if everything they were built from is equal, in either direction of the comparison.",
  ["inputs", "histories"], "all sequences of builder steps up to a bound, all values of the numbers and short names, all single differences",
  "Tests set each attribute once and compare items that are equal; nothing checks that a single differing part makes items differ.",
  ["src/memory/mem.rs", "src/memory/simple.rs", "src/memory/register.rs", "src/stmt.rs", "src/stmt/entity.rs", "src/types/type.rs", "src/types/oriented.rs", "src/module.rs", "src/circuit.rs", "src/info.rs", "src/expr.rs"],
  [("memory builder", "src/memory/mem.rs"), ("register builder", "src/memory/register.rs"), ("fields and types", "src/types/type.rs, src/types/ground.rs, src/types/oriented.rs"), ("infos", "src/info.rs"), ("entities", "src/stmt/entity.rs")])

p("P25", "An error report points at what is malformed",
  "The report of a rejected text names lines of that text and quotes each one as it stands there. For a text with exactly one malformed line, or one name that is not declared, it names no line behind that one and none before the construct the line belongs to - also with empty lines, comments and multi-byte characters in front, for whole circuits, module by module, and relative to the text that was given. Errors from outside (input/output, text) keep their kind, source and text.",
  ["inputs"], "every line of a text that uses every construct, every replacement from a set with free characters, every character position",
  "No test looks at an error report.",
  ["src/error.rs", "src/circuit.rs", "src/circuit/parsers.rs", "src/module/parsers.rs"],
  [("error conversion", "src/error.rs"), ("module iterator", "src/module/parsers.rs"), ("memory entries", "src/memory/parsers.rs")])

p("P26", "Whatever is read can be printed and read again, unchanged",
  "For every text that is accepted, as a circuit or module by module, each circuit that results is printed as a text that is accepted again, as an equal circuit, which is printed as the same text. (An alternative or branch without statements is the same as one with a single skip; module names are distinct.)",
  ["inputs"], "all texts up to a bound and near a text that uses every construct",
  "The round-trip tests start from generated circuits, never from texts that others may have written; the parser may build items no generator builds.",
  ["src/parsers.rs", "src/circuit.rs", "src/circuit/parsers.rs", "src/module/parsers.rs", "src/stmt/parsers.rs", "src/expr/parsers.rs", "src/types/parsers.rs", "src/memory/parsers.rs", "src/stmt.rs"],
  [("printing", "src/circuit.rs, src/module.rs, src/stmt.rs, src/expr.rs"), ("parsing", "src/circuit/parsers.rs, src/stmt/parsers.rs")])

p("P27", "A context finds what was added last, innermost scope first",
  "Looking up a name in a context yields the entity, or the memory, added most recently under exactly that name in the innermost scope that has one, else whatever the enclosing context yields, else nothing; entities, memories and modules never hide each other, and modules are always those of the function given. While a scope is open nothing reaches its parent; when it ends, the parent has everything the scope held, its own others unchanged. This holds for any order of additions, any nesting, and any implementation of the parent. A context with ports, or entities, finds each of them.",
  ["histories"], "every sequence of additions, lookups, opened and closed scopes",
  "No test uses a context directly; those that parse open at most one scope and add few names.",
  ["src/stmt/context.rs", "src/stmt/entity.rs", "src/named.rs"],
  [("scopes", "src/stmt/context.rs"), ("names", "src/stmt/entity.rs, src/memory/simple.rs, src/module.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
