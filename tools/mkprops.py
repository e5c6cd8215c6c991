#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n} for n in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "A reflected call behaves exactly like the direct C++ call",
  "Calling any reflected function (global function, member function, const member function, functor/lambda, constructor, field-style getter/setter overloads, global variable accessor) by name through Type::call, Scope::call, Value::call or Function::call computes the same result and has the same effects on every argument and on the object as the direct C++ call: arguments arrive in order and at any arity, by-value parameters receive their own copy, lvalue-reference parameters alias the caller's object, rvalue-reference parameters receive the caller's temporary so that a move really takes its content, and a returned reference denotes the very same object. Caller objects passed by copy or by const reference are left untouched, and a child object passed where a parent is expected is seen through its parent sub-object. A functor keeps its own state from call to call wherever its Function moves and lives exactly as long as the Function, Type or Scope that holds it; a functor registered from an lvalue is copied, and the caller's own is left as it was. A Function that is moved, assigned or swapped stays the function it was built as: name, signature, result. A result that refers to a temporary argument can be copied by the caller, as in C++.",
  ["inputs", "programs"], "all argument values, all combinations of parameter kind (copy, &, const &, &&) and way of passing (raw C++ lvalue/const lvalue/rvalue, Value holding either), arities 0 to 6, object/parent/child receivers",
  "Tests call a handful of fixed signatures with fixed values; the product of parameter kinds, passing modes, arities and positions is far larger, and most hand-off bugs (argument swapped at arity 4, copy turned into alias, move turned into copy) keep the sampled results right.",
  ["src/value_function.h", "src/function.tcc", "src/overloads.tcc", "src/cast.h", "src/cast.cpp", "src/function_type.h", "src/dsl/function.h", "src/dsl/scope.h", "src/dsl/plumbing.h"],
  [("ValueFunctionImpl::call unpacks Values into typed arguments", "src/value_function.h"), ("Function::call checks then dispatches to ValueFunction<N>", "src/function.tcc"), ("Cast<Value,Target> builds the argument", "src/cast.h")],
  observe=["reflect::Function::call", "reflect::Value::call", "reflect::Type::call", "reflect::Scope::call"])

p("P02", "Calls are accepted exactly when the signature rules allow, with no side effect",
  "For every function signature and every list of passed arguments, Argument::isConvertibleTo, Function::test/testParams and Overloads::test agree with the documented conversion rules (same type or child-to-parent, reference kind, constness, converters as partial matches, Value as a universal match, discarded or void returns, no temporary bound to a requested const reference) and report Exact, Partial or None accordingly. A call whose test is None, or whose argument count differs, raises a reflect::Error without running the target function or changing any argument; a call whose test is not None reaches the function (only passing a move-only object by value out of a Value is unsupported and raises as well).",
  ["programs", "inputs"], "all pairs (passed argument, parameter) over a zoo of types {unrelated, parent, child, grandchild, converting, pointer, Value, void} x {copy, &, &&} x {const, non-const}, all signature pairs up to arity 4, including the return position",
  "Unit tests spell out a few dozen pairs of one small class family; the rule set is a cross product of type relation, reference kind and constness for both sides where a single wrong cell lets a const object be written or rejects legal code.",
  ["src/argument.cpp", "src/function.cpp", "src/function.tcc", "src/ref_type.h", "src/overloads.cpp"],
  [("Argument::isConvertibleTo", "src/argument.cpp"), ("Function::testReturn/testArguments", "src/function.cpp")],
  observe=["Match returned by Function::test", "reflect::Error raised by Function::call"])

p("P03", "Overload resolution picks the exact match, else the only partial, else errors",
  "For any set of overloads registered under one name and any call, the overload that runs is the first one (in registration order) that matches the arguments exactly; without an exact match it is the only one that matches partially; with several partial matches the call raises an ambiguity error and with no match a no-overload error, and in both cases no overload runs. Adding an overload that would exactly match the signature of one already present is refused with an error and leaves the set unchanged; Overloads::get and test are consistent with that set.",
  ["programs", "inputs", "histories"], "all small sets of overloads in every registration order, over parameter types related by inheritance, conversion, constness and reference kind, and all calls on them",
  "The outcome depends on the combination and order of all overloads present; tests use two or three fixed overload sets.",
  ["src/overloads.tcc", "src/overloads.cpp", "src/argument.cpp"],
  [("Overloads::call ranking loop", "src/overloads.tcc"), ("Overloads::add ambiguity check", "src/overloads.cpp"), ("Match combine", "src/argument.cpp")],
  observe=["which overload body ran", "reflect::Error text class"])

p("P04", "Value ownership: every stored object dies exactly once and only when unused",
  "Over any history of building, copying, copy-assigning, moving, move-assigning, returning, storing in containers, copy()-ing, move()-ing, rvalue()-ing and dropping Values, a Value built from a temporary owns one object that all its copies share, stays readable while any of them lives, and is destroyed exactly once when the last one goes; a Value built from an lvalue never copies, owns or destroys that object. copy() yields an independent object, move() transfers the content into a fresh object (a const object is copied) and leaves the source Value void, or raises and leaves it as it was when no object can be made, and isStored/refType/isConst/isVoid/type report this state faithfully.",
  ["histories"], "all operation sequences over a pool of Values holding counted copyable, move-only, copy-only, polymorphic, string and container objects",
  "Lifetime bugs need a particular sequence (share, move out, reassign, drop in another order) and usually leave the values a test reads unchanged.",
  ["src/value.cpp", "src/value.tcc", "src/value.h"],
  [("Value(T&&) storage", "src/value.tcc"), ("copy/move/rvalue/toConst", "src/value.cpp")],
  state=["Value::arg", "Value::value_", "Value::storage"], observe=["constructor/destructor counts of stored objects", "AddressSanitizer"])

p("P05", "No object is modified through a const path",
  "An object that enters reflection as const (const lvalue, toConst(), const field, const Value of a const object, const member of a const parent object) is never changed by any reflected call, field access, assignment, cast or container/pointer operation: each attempt to obtain non-const access (cast<T&>, non-const member function, operator=, ++, +=, field assignment, push_back) raises reflect::Error and leaves the object bit-for-bit as it was. Constness propagates through any chain of field accesses and Value copies, while read-only access (cast<const T&>, copies, const functions) keeps working and returns the current content. (cast<T&&> of a const object is a recorded finding.)",
  ["programs", "histories"], "all chains of Value operations starting at a const or non-const object, ending in a read or a write attempt through any API",
  "The guarantee is a negative over all API paths; tests try a few direct ones.",
  ["src/cast.cpp", "src/value.tcc", "src/value.cpp", "src/argument.cpp", "src/ref_type.h"],
  [("lref const test", "src/cast.cpp"), ("Value::field const propagation", "src/value.tcc"), ("testConstConversion", "src/ref_type.h")],
  observe=["content of the object after each attempt"])

p("P06", "Casting a Value yields the same object, a copy, or a conversion, or an error",
  "cast<T&>/cast<const T&> on a Value return a reference to the very object (or its parent sub-object) that the Value denotes, cast<T> returns an independent copy that compares equal, cast<T&&>-style casts hand over a movable object, and a reflected converter is used exactly when the types are unrelated but a converter to the target is reflected, giving the converter's result. Where the converter gives a reference, a T or T&& made of it is a copy, and the source stays as it was. Every other request raises reflect::Error without touching the object, and isCastable<T>(v) returning true implies that cast<T>(v) succeeds (for copyable targets), consistently for raw C++ values, Values and pointers to related types.",
  ["inputs", "programs"], "all (source object, source category and constness, target type and category) combinations over families with inheritance, converters, copy-only, move-only and neither, and all contents",
  "Tests cover a fixed table of casts on one hierarchy with one content; identity versus copy and which sub-object is seen are only visible with further mutation.",
  ["src/cast.cpp", "src/cast.h", "src/value.tcc", "src/value.cpp"],
  [("lref/rref/copy", "src/cast.cpp"), ("Cast<> specialisations", "src/cast.h"), ("Value::as/get child check", "src/value.tcc")],
  observe=["address, content and counters of source and result"])

p("P07", "Type relations form the declared hierarchy; members are inherited and shadowed",
  "isParentOf/isChildOf are the reflexive-transitive closure of the declared parents, extended covariantly to pointers of the same kind only, and are mutually inverse; hasConverter, isCopiable and isMovable tell what is really reflected. functions() and fields() list, sorted and without duplicates, exactly the names for which hasFunction/hasField are true, lookup returns the nearest definition on the parent chain and raises reflect::Error for others, the non-const lookups only return immediate members, and name clashes between fields and functions or repeated fields are refused without changing the type.",
  ["programs", "histories"], "random hierarchies (chains and trees of types built at run time and statically reflected ones), random member additions in any order, all pairs and names queried",
  "The relation quantifies over all pairs and triples of types and all add/lookup orders, tests check a single parent-child pair.",
  ["src/type.cpp", "src/type.h", "src/type.tcc", "src/dsl/basics.h", "src/types/pointer.h"],
  [("isChildOf recursion and pointer covariance", "src/type.cpp"), ("functions()/fields() collection", "src/type.cpp"), ("addField/addFunction conflicts", "src/type.cpp")],
  observe=["Type query API"])

p("P08", "A field Value aliases the member at its declared place, type and constness",
  "For every reflected class, nested to any depth and inherited from any reflected parent, Value::field(name) denotes exactly that member of that object: same address, type and content as the direct access, writes through it are seen by the object and nothing else changes, and writes to the object are seen through it. It is const when the member or the object is const, unknown names raise reflect::Error, and it works alike on owned Values, references, child objects and pointees; reference-typed fields are refused at registration.",
  ["inputs", "programs", "histories"], "all classes of a zoo with differing layouts (padding, arrays of sub-objects, inheritance, const members), all field paths, all read/write interleavings",
  "Offsets and types are per field and per class; tests read a couple of ints at low offsets.",
  ["src/field.cpp", "src/field.tcc", "src/value.tcc", "src/dsl/field.h", "src/type.cpp"],
  [("Value::field offset arithmetic", "src/value.tcc"), ("reflectField offsetof", "src/dsl/field.h")],
  observe=["address/content comparison with direct member access"])

p("P09", "Each type id or alias names one Type object, loaded once, lazily, consistently",
  "Whatever order types are first requested in, by C++ type, by id, by alias, or from within another type's loader (including self-reference and cycles), type<T>() and type(id) return one and the same Type object per C++ type after removing references, const and pointee const; the loader runs exactly once and typeId<T>() is the registered id, with template ids composed from their arguments' ids. Aliases resolve to the aliased type, re-adding a loader does not replace the first, re-aliasing a taken name and asking for an unknown or empty id raise reflect::Error, and a request refused for an unknown or empty id leaves the registry usable and unchanged.",
  ["histories", "programs"], "all orders of add/alias/get over generated type graphs, and all statically reflected template instantiations",
  "Registration order, cyclic loaders and alias histories multiply; tests always load the same few types in the same order.",
  ["src/registry.cpp", "src/registry.h", "src/dsl/type.h", "src/dsl/template.h", "src/clean_type.h", "src/types/primitives.cpp"],
  [("Registry::get/load/add/alias", "src/registry.cpp"), ("reflectTemplateLoader", "src/dsl/template.h"), ("CleanType", "src/clean_type.h")],
  state=["RegistryState types/aliases/loaders"], observe=["pointer identity of Type", "loader invocation counts"])

p("P10", "Scoped names split and join losslessly, treating template brackets as opaque",
  "For every well-formed qualified name, Scope::head returns the first component and the rest and Scope::tail the last component and the rest, where :: inside <...> (nested to any depth) is never a separator, so that joining the parts gives back the name and repeated head and repeated tail give the same component list. Names with an unbalanced bracket inside the scanned part or a single colon raise reflect::Error instead of a wrong split or an out-of-range read.",
  ["inputs"], "all component lists with nested template arguments, and all short strings over the alphabet {a, b, :, <, >}",
  "String splitting has corner cases at ends, empty components and nesting; tests list a dozen names.",
  ["src/scope.cpp", "src/scope.h"], [("Scope::head/tail/join", "src/scope.cpp")],
  observe=["returned pairs"])

p("P11", "Scopes behave as a tree of names; queries never change it",
  "Over any history of addType, addFunction and scope() on any scope of the tree, every query (scopes, hasScope, scope, types, hasType, type, functions, hasFunction, function, call, id, name, parent) answers as a plain tree map of qualified names would, both with qualified names from an ancestor and with local names from the inner scope, and listings with includeScopes give exactly the qualified names relative to the queried scope. Queries and failed lookups leave the tree unchanged, asking for something missing answers false from has* functions and raises reflect::Error from the others, and overloads added under one qualified name accumulate.",
  ["histories"], "all operation histories over generated scope/type/function names with template brackets, at nesting depth up to 6",
  "State built by history; tests register one fixed scope tree.",
  ["src/scope.cpp", "src/scope.tcc", "src/scope.h", "src/registry.cpp", "src/dsl/scope.h"],
  [("Scope add/query recursion", "src/scope.cpp")], state=["Scope::scopes_/types_/functions_"],
  observe=["Scope query API before and after each step"])

p("P12", "Reflected std containers and strings behave like the containers themselves",
  "Every history of reflected operations on std::vector, std::map, std::unordered_map and std::string objects (size, clear, resize, push_back by copy and by move, operator[], at, count, keys, construct, copy, assign, Value iteration through them) returns the same results and leaves the same content as the same operations on the plain container, with references returned by operator[] and at aliasing the element. at with an out-of-range index or absent key raises reflect::Error and changes nothing, at and size work on const containers while mutators are refused, and valueType/keyType/list/map/string traits describe the element types.",
  ["histories", "inputs"], "all operation histories over vectors, maps and unordered maps of ints, strings, counted objects, nested containers and pointers",
  "Model equivalence over histories; tests run one fixed short script.",
  ["src/types/std/vector.h", "src/types/std/map.h", "src/types/std/string.h", "src/types/std/string.cpp", "src/dsl/plumbing.h"],
  [("reflectTemplate(std::vector)", "src/types/std/vector.h"), ("reflectMap", "src/types/std/map.h")],
  observe=["container content vs model"])

p("P13", "Reflected raw and smart pointers behave like the pointers themselves",
  "For raw pointers, std::shared_ptr and std::unique_ptr to any reflected type, the reflected operations (operator bool, operator*, get, ==, reset, release, construction from a raw pointer, copy, move, assign) act as on the plain pointer: dereferencing denotes the pointee itself, ownership is shared, transferred or dropped accordingly and every pointee is destroyed exactly once at the right moment, move-only pointers are not copiable. pointee() and pointer() name the pointee type and pointer kind, pointers to children are accepted where pointers to parents of the same kind are expected and no other pointer conversion is, and a const Value of a raw pointer gives only const access to the pointee (constness inside the C++ pointer type is documented as not tracked).",
  ["histories", "programs"], "all histories over pools of raw/shared/unique pointers to counted objects of a class family, null and non-null, single and double indirection",
  "Ownership is a property of histories; tests deref one pointer each.",
  ["src/types/pointer.h", "src/types/std/smart_ptr.h", "src/type.cpp", "src/clean_type.h"],
  [("Reflect<T*>", "src/types/pointer.h"), ("reflectSmartPtr", "src/types/std/smart_ptr.h"), ("pointer covariance in isChildOf", "src/type.cpp")],
  observe=["pointee identity, use_count, destruction counts"])

p("P14", "Primitive types reflect their C++ values, limits, aliases and classification",
  "For each of the arithmetic types (bool, all char/short/int/long/long long variants, float, double, long double) and every value, default construction gives zero, copy/move construction, assignment, cast, new and operator+ through reflection give the value the C++ type gives, sizeof/min/max traits equal the C++ limits, and the classification traits (primitive, bool, integer, signed, unsigned, float) are exactly those of the type. Every documented integer alias (size_t, int64_t, uint_fast16_t, ...) and spelling resolves to the type the compiler means by it.",
  ["inputs"], "all primitive types x all values including boundaries, infinities and NaN, x all reflected operations",
  "Per-type registrations are independent lines; tests touch int only.",
  ["src/types/primitives.tcc", "src/types/primitives.cpp", "src/types/primitive_int.cpp", "src/types/primitive_float.cpp", "src/types/primitive_char.cpp", "src/types/primitive_long.cpp", "src/dsl/plumbing.h"],
  [("reflectNumberImpl", "src/types/primitives.tcc"), ("PrimitiveAliases", "src/types/primitives.cpp")],
  observe=["Type traits and call results"])

p("P15", "Traits on types, fields, functions and scopes behave as a write-once map",
  "After any history of addTrait calls on a Type, Field, Overloads set or Scope, is(name) is true exactly for added names, traits() lists each exactly once, getValue<T>(name) returns the value given at addition (unchanged by later additions or by changes to the source object when it was passed as a temporary, aliasing it when passed as an lvalue, and never changed by reads), and adding an existing name raises reflect::Error and keeps the first value. getValue of an absent name or as an unrelated type raises reflect::Error, and traits of one entity never show up on another except that Value::is asks its own type.",
  ["histories"], "all histories of additions and reads over several entities and value types",
  "Map semantics over histories and entity kinds; tests add one trait to one field.",
  ["src/traits.cpp", "src/traits.tcc", "src/traits.h", "src/dsl/type.h", "src/dsl/field.h", "src/dsl/function.h"],
  [("Traits::addTrait/getValue", "src/traits.cpp")], observe=["trait query API"])

p("P16", "JSON print then parse restores the object, under every writer/reader option",
  "For every object graph built from reflected classes whose leaves are bool, int64_t, double, std::string or custom-parsed types, combined through fields, inheritance, vectors, string-keyed maps, raw and shared/unique pointers (to scalars, strings and classes that reflect an allocator), nested up to 1024 levels, json::print followed by json::parse into a fresh object of the same type succeeds and yields an equal object (doubles to the 12 significant digits the format prints, fields that are skipped or left out as empty at their default), whether printed pretty, compact, escaped or raw, and whatever locale the program runs in. The same holds for dynamic Value trees (null, bool, int64, double, string, arrays, objects) up to integral doubles reading back as integers.",
  ["inputs", "configurations"], "all object graphs of the zoo types with all contents (any valid UTF-8 strings, extreme numbers, null pointers, empty containers) x all writer and reader option combinations",
  "A round trip over all contents and options; tests print and parse one fixed object.",
  ["src/utils/json/printer.cpp", "src/utils/json/parser.cpp", "src/utils/json/format.cpp", "src/utils/json/token.cpp", "src/utils/json/printer.tcc", "src/utils/json/parser.tcc"],
  [("typed Printer/Parser trees", "src/utils/json/printer.cpp"), ("typed parsers", "src/utils/json/parser.cpp")],
  observe=["equality of object before and after"])

p("P17", "Printed JSON is well-formed and denotes the object, in every layout",
  "For every printable object, every writer option and every locale of the program, json::print without an error produces exactly one well-formed JSON text that an independent JSON parser reads as the value the object denotes (each non-skipped field once under its JSON name, arrays in order, map entries by key, null for null pointers, numbers and strings with their value), and whitespace is the only difference between pretty and plain layout, in which plain output has none outside strings and pretty output indents by nesting. Values that JSON cannot denote (non-finite doubles, invalid UTF-8 when validating) give an Error, never malformed text presented as success. (Raw control characters inside strings, which an existing test demands, are a recorded finding.)",
  ["inputs", "configurations"], "all object graphs and contents x all writer options, nesting depth into the hundreds",
  "Tests compare a few fixed objects against golden files.",
  ["src/utils/json/printer.cpp", "src/utils/json/printer.tcc", "src/utils/json/format.cpp", "src/utils/json/writer.cpp", "src/utils/json/writer.h"],
  [("printObject/printArray separators and layout", "src/utils/json/printer.tcc"), ("formatString/formatFloat", "src/utils/json/format.cpp"), ("Writer::newline", "src/utils/json/writer.cpp")],
  observe=["output text parsed by a reference parser"])

p("P18", "Parsing a valid JSON document yields exactly the data it denotes",
  "For every valid JSON document nested up to 1024 levels, parsing into a dynamic (void) Value, through the event API, or into a typed object of matching shape succeeds and yields exactly the denoted data: the right kinds, array order, keys, 64-bit integers exactly, doubles as the nearest double, decoded strings. The result does not depend on insignificant whitespace, on comments when allowed, on field order, on how characters are escaped, or on the locale of the program, and unknown fields of any content are skipped without effect on the rest. Arrays append to the vector parsed into and a non-null pointer keeps its pointee, which is parsed into.",
  ["inputs", "configurations"], "all documents generated from the JSON grammar with random layout, comments and escapes, including integer and double extremes and deep nesting",
  "Grammar-wide agreement with a reference; tests parse two files and a dozen literals.",
  ["src/utils/json/parser.cpp", "src/utils/json/parser.tcc", "src/utils/json/token.cpp", "src/utils/json/reader.cpp"],
  [("tokenizer", "src/utils/json/token.cpp"), ("ValueParser", "src/utils/json/parser.cpp"), ("parseObject/parseArray", "src/utils/json/parser.tcc")],
  observe=["parsed Value tree vs generated document tree"])

p("P19", "Any byte string is parsed or rejected with an Error, never crashing",
  "For every byte sequence, every reader option and every supported target (dynamic Value, typed objects with scalar, string, pointer, container, nested and custom fields, skip, event API), parsing terminates and either succeeds or reports a json::Error through its result: it never aborts, throws something else, reads or writes out of bounds, executes undefined behaviour, overflows the stack (nesting beyond 1024 levels is an Error), leaks or double-frees. The target object stays valid and destructible afterwards, and scalar fields whose value was rejected keep their previous content.",
  ["inputs", "configurations"], "all byte strings (random bytes, mutated and truncated valid documents, numeric and nesting extremes) x reader options x targets",
  "Robustness quantifies over all inputs; tests feed about twenty malformed tokens.",
  ["src/utils/json/token.cpp", "src/utils/json/parser.tcc", "src/utils/json/parser.cpp", "src/utils/json/reader.cpp", "src/utils/json/reader.h", "src/error.cpp"],
  [("tokenizer", "src/utils/json/token.cpp"), ("parse helpers", "src/utils/json/parser.tcc"), ("PointerParser", "src/utils/json/parser.cpp")],
  observe=["Error result, sanitizer reports, allocation balance"])

p("P20", "Malformed or mistyped JSON is always rejected with an Error",
  "Every document that is not valid JSON within the first value (missing or extra separators, keys that are not strings, unterminated strings, arrays or objects, bad literals, escapes or numbers, comments when not allowed, truncation at any byte), save for the leniencies listed below, makes parsing report an Error, whatever the target. A value whose kind does not fit the typed target (for example a string where a number, array or object is expected, or an integer beyond 64 bits) reports an Error as well, and nothing that is valid and fits is rejected. The parser's leniencies are part of the property: leading zeros, raw control characters other than newline in strings, \\v and \\f as whitespace and null for an object or array are accepted, and what follows the first value is not looked at.",
  ["inputs"], "all single-edit corruptions and truncations of generated valid documents and all short token sequences, judged by an independent strict recogniser, and all kind mismatches between documents and typed targets",
  "Tests contain about twenty hand-picked bad tokens and no bad documents.",
  ["src/utils/json/parser.tcc", "src/utils/json/parser.cpp", "src/utils/json/token.cpp", "src/utils/json/reader.cpp"],
  [("expectToken/assertToken", "src/utils/json/reader.cpp"), ("parseObject/parseArray", "src/utils/json/parser.tcc"), ("readNumber/readString", "src/utils/json/token.cpp")],
  observe=["Error result of json::parse"])

p("P21", "JSON strings carry any valid UTF-8 exactly; invalid UTF-8 is never passed on",
  "For every valid UTF-8 string (any code point, all control characters other than raw newline rules, quotes, slashes), writing it with any writer options and reading it back with any reader options that decode escapes gives the identical bytes, escaped output is pure ASCII with \\uXXXX escapes (surrogate pairs above U+FFFF), and every escape form denotes its character on reading. With validation on, every byte string that is not structurally valid UTF-8 (bad lead byte, missing or bad continuation, truncated or overlong sequence) is rejected with an Error by both writer and reader, and with validation and escaping off bytes pass through unchanged.",
  ["inputs", "configurations"], "all code points (swept exhaustively), all 1 to 4 byte sequences by class, random strings mixing them, x all options",
  "1.1 million code points and all byte combinations; tests try about fifteen.",
  ["src/utils/json/format.cpp", "src/utils/json/token.cpp", "src/utils/json/utils.h"],
  [("formatString/escapeUnicode/readUnicode", "src/utils/json/format.cpp"), ("readString/unescapeUnicode/validateUnicode", "src/utils/json/token.cpp")],
  observe=["byte-exact output and decoded strings, Error results"])

p("P22", "JSON field traits map fields to keys as declared, for printing and parsing alike",
  "For every reflected class and every combination of json traits on its fields (skip, skipEmpty, alias, custom parser/printer, and their | combinations in either order), the printer emits and the parser accepts exactly the declared keys: aliased fields only under their alias, skipped fields never, skipEmpty fields (and all fields in compact mode) left out exactly when their value is empty or null, custom types through their own functions, inherited fields included, others untouched. Field order in a document is irrelevant, the last of repeated keys wins, fields that are absent keep their value, null clears pointers, and two fields claiming one JSON key raise reflect::Error for both directions. (Whether a field with only alias, skip or custom is also left out when empty is a recorded finding.)",
  ["programs", "configurations", "inputs"], "all trait combinations on fields of generated types, all contents including empty/zero/null ones, all key orders and subsets",
  "Trait combinations multiply with field kinds and contents; tests use one class with one trait per field.",
  ["src/utils/json/traits.cpp", "src/utils/json/traits.h", "src/utils/json/parser.cpp", "src/utils/json/printer.cpp"],
  [("json::Traits operator|", "src/utils/json/traits.cpp"), ("ObjectParser::init", "src/utils/json/parser.cpp"), ("ObjectPrinter::init/skipFn", "src/utils/json/printer.cpp")],
  observe=["keys in the output, fields changed by parsing"])

p("P23", "Errors report the line and column where the input stops being acceptable",
  "When parsing fails, the Error's text starts with line:column of the place where reading stands once the first offending character or token has been consumed: the line is one more than the number of newlines before it (in whitespace and in allowed comments), the column counts the characters consumed on that line, both in plain decimal, and the first error is the one reported, whatever follows. Reader::line and Reader::pos follow the same count at every token boundary of every document.",
  ["inputs"], "all documents with random layout, comments and one injected error at a random token",
  "Position tracking must hold for all layouts; tests never look at positions.",
  ["src/utils/json/reader.tcc", "src/utils/json/reader.h", "src/utils/json/token.cpp", "src/utils/json/reader.cpp"],
  [("Reader::error", "src/utils/json/reader.tcc"), ("nextChar newline counting", "src/utils/json/token.cpp")],
  observe=["json::Error::what, Reader::line, Reader::pos"])

p("P24", "Error reports carry their full formatted message and never corrupt the program",
  "Every misuse reported by the library raises exactly one reflect::Error (in exception mode) whose text is file:line: followed by the complete formatted message with the names involved, for names of any length and any characters but NUL (including % signs), and reading it never exposes foreign memory; without exceptions that same text is printed on standard output, wherever it goes, before the program aborts. A default-constructed Error tests false and one with a message tests true, copies keep text and state, and after a caught error the library keeps answering correctly.",
  ["inputs", "fault_sequences"], "messages and identifiers of all lengths from 0 to several thousand bytes, all misuse kinds, in any sequence",
  "Tests only check that something is raised, with short names.",
  ["src/error.cpp", "src/error.h", "src/utils/json/reader.tcc", "src/utils/json/writer.tcc"],
  [("verrorFormat", "src/error.cpp"), ("errorConvert", "src/error.h"), ("verror", "src/error.cpp")],
  observe=["Error::what text, sanitizer reports"])

p("P25", "Reflection lookups and JSON use are safe from several threads at once",
  "When several threads concurrently look up types (by C++ type, id, alias or scope, including first-time lookups that trigger loaders and template registration), query scopes and add functions to scopes of their own, call reflected functions on their own objects, and print or parse their own documents, every thread gets the same results as when run alone, each loader runs once, no thread sees a partially loaded type, and there is no data race and no deadlock.",
  ["schedules", "programs"], "random per-thread programs over shared fresh types on 2 to 8 threads, under ThreadSanitizer",
  "Tests are single-threaded.",
  ["src/registry.cpp", "src/scope.cpp", "src/dsl/template.h", "src/argument.cpp", "src/utils/json/parser.cpp", "src/utils/json/printer.cpp"],
  [("registry lock", "src/registry.cpp"), ("template loader guard", "src/dsl/template.h"), ("getParserLocked/getPrinterLocked", "src/utils/json/parser.cpp")],
  state=["RegistryState", "static parser/printer caches"], observe=["ThreadSanitizer reports, per-thread results"])

p("P26", "Operators on Values are the reflected operators of the held object",
  "For every operator that Value offers (assignment forms, ++/-- prefix and postfix, arithmetic, bitwise, shifts, logical, comparisons, call, index, dereference, bool conversion and !), applying it to Values of a type that reflects it gives the same result and the same effect on the object as the C++ operator applied to the object, with the operands in order and exactly one evaluation, whether the right operand is a raw C++ value or a Value. Operators that the type does not reflect raise reflect::Error without effect, and ! falls back to the negation of the bool conversion only when no operator! is reflected.",
  ["inputs", "programs"], "all operators x operand values x operand passing modes on types where every operator is distinguishable",
  "Each operator is its own macro line; a mix-up of two of them shows only on operands that tell them apart.",
  ["src/value.h", "src/value.cpp", "src/dsl/operators.h", "src/dsl/function.h"],
  [("reflectValueOp* macros", "src/value.h"), ("reflectOpFn/reflectOpTypedFn", "src/dsl/operators.h"), ("Value::operator!", "src/value.cpp")],
  observe=["result and object state vs direct operator"])

p("P27", "The JSON event API drives callbacks exactly once per element, in order",
  "parseObject, parseArray, the scalar parse functions and skip consume exactly one JSON value each, call the callback once per member in document order with the right key or index (none for empty or null), and leave the reader at the next token, so hand-written parsers over any document see exactly its events; peekToken never consumes, and after an error callbacks get no further elements. printObject and printArray call their print callback once per non-skipped key or index in order and emit exactly those elements, correctly separated, for every skip pattern, and call no more of them once the writer holds an Error.",
  ["inputs", "programs"], "all documents and all callback programs (consume, skip, nest, peek repeatedly), all key lists and skip patterns x layout options, all token streams",
  "Callback sequences for all shapes; tests check a few fixed ones.",
  ["src/utils/json/parser.tcc", "src/utils/json/printer.tcc", "src/utils/json/reader.cpp", "src/utils/json/writer.h"],
  [("parseObject/parseArray/skip", "src/utils/json/parser.tcc"), ("printObject/printArray", "src/utils/json/printer.tcc"), ("peekToken/nextToken", "src/utils/json/reader.cpp")],
  observe=["recorded callback events, output text"])

p("P28", "print() and signature() describe exactly what is reflected",
  "Type::print, Scope::print and the print of Field, Overloads, Traits and Argument, and signature(), describe what is reflected, no more and no less: the id, the parent nested with all that it has in turn, the traits, each field once with its offset, type, constness and traits, in the order of the offsets, each function name once with its traits and the signature of every overload, and in a scope its functions, the types and the nested scopes - nested by the indentation that was asked for. What is added later shows in the next description, and the descriptions agree with what the query API answers.",
  ["inputs", "histories"], "all classes, dynamic types, scopes and registries, all histories of additions, all indentations",
  "Descriptions of every shape of type; the tests print a few types and compare nothing.",
  ["src/type.cpp", "src/scope.cpp", "src/overloads.cpp", "src/field.cpp", "src/traits.cpp", "src/argument.cpp", "src/function.cpp", "src/argument.h"],
  [("Type::print", "src/type.cpp"), ("Scope::print", "src/scope.cpp"), ("Overloads::print", "src/overloads.cpp"), ("Field::print", "src/field.cpp"), ("signature", "src/function.cpp")],
  observe=["text of print() and signature()"])

p("P29", "The DSL reflects exactly what is declared, and it works like direct use",
  "For any class - whatever its special members, data members, member, static and custom functions, overloads, operators, bases, enclosing namespaces - the DSL compiles: reflectPlumbing and reflectAllocPlumbing, reflectOperators and its groups, reflectFn, reflectFnTyped, reflectCustom, reflectCons, reflectAlloc, reflectOpCast, reflectField, reflectParent, the traits and values of types, fields and functions, and reflectScope's global functions, variables and traits. It reflects exactly the operations that the class supports and that were asked for, each with its exact signature (constness of the object, reference category of each parameter, return type), and none that the class does not support; the query API shows those and inherits the rest from the parent. Calling, assigning, reading, constructing, copying, moving and allocating through them has the results, side effects and effects on the arguments of the same use written directly, and what is not supported is an Error.",
  ["inputs", "programs"], "all classes that can be written with these members, all uses of them",
  "Any class a user may reflect; the tests reflect a handful.",
  ["src/dsl", "src/function.tcc", "src/value_function.h", "src/type.tcc", "src/field.tcc", "src/value.tcc"],
  [("reflectPlumbing", "src/dsl/plumbing.h"), ("reflectOperators", "src/dsl/operators.h"), ("reflectFn", "src/dsl/function.h"), ("reflectField", "src/dsl/field.h"), ("reflectScope", "src/dsl/scope.h")],
  observe=["result, object state and arguments vs direct use", "query API vs the declaration", "compilation"])

p("P30", "Exceptions cross reflection intact: nothing leaks, runs twice or half changes",
  "When user code that the library runs throws (a reflected function, method, functor, constructor, copy or move constructor, assignment, operator, converter, custom JSON parser or printer, or a JSON callback), or memory runs out during an operation, exactly that exception reaches the caller of the operation, whatever its type. Every object that was made on the way is destroyed exactly once and its memory returned, a functor or scope that could not be added included, no function runs more often than it would have, objects, Values, containers and globals that were not the target stay as they were, the target is as it was or as it would have been (a container that a JSON document is parsed into may have a part of it), a temporary that was passed may have been moved away, and what a document put behind a pointer belongs to that pointer. The same operation works when it is made again. (Exempt: with no memory left for the call that hands a new object to its pointer, that object is lost.)",
  ["inputs", "faults"], "all operations, all points of each at which something can throw or memory can run out, any type of exception",
  "The tests throw nothing; every conversion, copy and container operation is a point of its own.",
  ["src/value.tcc", "src/value.cpp", "src/function.tcc", "src/value_function.h", "src/value_function.cpp", "src/type.cpp", "src/scope.cpp", "src/cast.h", "src/utils/json/parser.cpp", "src/utils/json/printer.cpp", "src/utils/json/parser.tcc"],
  [("Value(T&&) stores its object", "src/value.tcc"), ("Function::Function, Function::call", "src/function.tcc"), ("makeValueFunction", "src/value_function.h"), ("PointerParser", "src/utils/json/parser.cpp")],
  observe=["exception caught, live objects and bytes, state of every operand, calls made"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
