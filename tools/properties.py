prop("C01", "Every response is one complete JSON document",
     "Whatever query, variables and options are given, and whatever the resolvers return, the bytes of the response are one complete, syntactically valid JSON document. "
     "This also holds for responses with errors, tracing, without meta data, for batches, and for requests that are rejected before they are resolved.",
     ["inputs", "programs", "configurations"], "all queries, variables, options, schemas and values returned by resolvers",
     "The tests compare the responses of a few dozen queries, a separator or brace that is only missing for one combination of nulls, errors, skips and fragments is seen by none of them.",
     ["resolver.go", "implement_helpers.go", "inject_schema.go"],
     [("writers of the response", "resolver.go: everything below Resolve"), ("batch responses and rejected requests", "implement_helpers.go: HandleRequest")],
     "abstract interpretation of the SSA with a pushdown automaton for JSON as abstract domain",
     "Sound for the analysed functions under the assumptions in the evidence file; loops and recursion are handled by summaries until a fixed point, no bound on inputs.")

prop("C25", "Every part of a request reaches the resolvers unchanged",
     "The query, the variables, the operation name and each option of a HTTP request are what the query is resolved with, for requests in the URL, form, JSON body and batches alike. "
     "A part may only be left out if the request doesn't have it.",
     ["inputs", "configurations"], "all requests, in every encoding, with every combination of options present or not",
     "The tests send a handful of requests without options, a part that's dropped or mixed up for one encoding or combination stays unseen.",
     ["implement_helpers.go"],
     [("reading of requests", "implement_helpers.go: HandleRequest"), ("options", "implement_helpers.go: handleSingleRequest")],
     "abstract interpretation with provenance of values from request to resolver call",
     "Follows every path from the reading of a request to the call of the resolver; fastjson is trusted to return what was asked for.")

prop("C26", "Optional parts of a request can be absent",
     "A request without context, values, form file getter or options is resolved like any other one, also if a query or resolver asks for the absent part. "
     "It never makes the process panic.",
     ["inputs", "programs", "configurations"], "all queries and resolvers, with every combination of optional parts absent",
     "The tests only leave out the parts the query of that test doesn't need.",
     ["resolver.go", "implement_helpers.go"],
     [("request context", "resolver.go: methods of Ctx"), ("binding of files", "resolver.go: bindInputToGoValue, bindJSONToValue, assignStringToValue")],
     "abstract interpretation with nilness of every optional part",
     "Every dereference, call or method call of a value with the type of an optional part must be preceded by a check on every path.")

prop("C10", "Numbers given to a query arrive as they were written or are rejected",
     "Every integer in the arguments or variables of a query reaches the resolver with exactly the value that was written, or the argument is rejected with an error. "
     "It never wraps around, is truncated, gets another base or sign, and is never put in a Go value of a kind that can't have it. A float is never replaced by another number.",
     ["inputs", "programs"], "all texts of numbers, in queries and variables, for every numeric kind of Go value",
     "The tests bind a few small numbers; whether a number is in the range of each of the kinds can only be missed for numbers just outside of it.",
     ["resolver.go"],
     [("binding of arguments", "resolver.go: bindInputToGoValue"), ("binding of variables", "resolver.go: bindJSONToValue"), ("binding of text", "resolver.go: assignStringToValue")],
     "abstract interpretation with intervals, once for every kind of Go value",
     "Every path from a parsed number to a setter of reflect.Value, for each reflect.Kind; strconv and fastjson are trusted. The rounding of floats isn't analysed.")

prop("C11", "Enum values only come from, and are only written as, their own name",
     "An enum argument or variable is only accepted if it's exactly the name of a registered entry of that enum, and the resolver then gets the value of that entry. "
     "A value returned by a resolver is only written as the name of the entry with that value. Numbers or strings are never taken for an enum value.",
     ["inputs", "programs"], "all enums of all kinds, all literals and variables",
     "The tests have one enum per kind and use the right names; that a prefix, a number or a neighbouring entry is taken isn't noticed.",
     ["resolver.go"],
     [("enum arguments", "resolver.go: bindInputToGoValue, bindJSONToValue, assignStringToValue"), ("enum fields", "resolver.go: resolveEnum")],
     "abstract interpretation with ghost state for the entry at hand, once for every kind of enum",
     "Every path from Resolve to where an enum value is set or a name is written; that entries are what was registered is assumed.")

prop("C05", "Nothing of an earlier request is left for a later one",
     "What a request resolves to only depends on the query, its options and the schema. Nothing an earlier request handled by the same schema left behind (its query, errors, variables, values, context, path, fragments, trace or result) is used for it. "
     "The errors returned for an earlier request, and the texts resolvers got as arguments, aren't changed by a later one.",
     ["histories", "inputs"], "all sequences of requests to one schema",
     "Most tests resolve one query per schema, state that is only left behind by some request and only used by some other request is never seen.",
     ["resolver.go", "bytecode/bytecode.go", "apollo_tracing.go"],
     [("state of a request", "resolver.go: Resolve"), ("state of the parser", "bytecode/bytecode.go: ParseQueryToBytecode")],
     "abstract interpretation from Resolve with ghost state per field: is it written by this request before it's read; flow insensitive taint analysis of texts that share the bytes of a buffer",
     "For every field requests write, each path from Resolve to a read must write or empty it first. Memoised data of the introspection, the bytecode cache and spare capacity are exempt; see the evidence file.")

prop("C06", "Requests don't change the schema, and copies don't share what requests change",
     "Handling a request never changes the definition of the schema nor anything that's shared by all schemas. "
     "A schema made by Copy shares nothing with the original that a request changes, so a request handled by one of them never affects a request that's being handled by the other.",
     ["schedules", "histories"], "all requests, and all interleavings of requests handled by a schema and its copies",
     "The tests never use a schema and its copy at the same time.",
     ["copy_schema.go", "resolver.go", "inject_schema.go", "bytecode/bytecode.go"],
     [("copies", "copy_schema.go: Copy"), ("effects of requests", "everything below HandleRequest and Resolve")],
     "effect analysis of the SSA of everything a request can run, and abstract interpretation of Copy with the origin of every value",
     "Sound for the types of this module; values of packages reflect and hash are followed by where they were made. The data resolvers themselves share isn't covered.")
prop("C03", "An error of a field has the path of exactly that field",
     "The path of every error recorded while a field or list element is resolved is the path of that field or element in the response: response names (the alias if there's one) and list indexes, from the root. "
     "It's complete, and doesn't change when other fields are skipped, fail or are resolved before or after it.",
     ["inputs", "programs"], "all queries, with errors at every field, argument, directive and element",
     "The tests have an error with a path for a few fields; one that's wrong after a skipped field, a nil element or a second error is seen by none of them.",
     ["resolver.go"],
     [("path of the field at hand", "resolver.go: resolveField, resolveFieldDataValue"), ("recording of errors", "resolver.go: (*Ctx).err")],
     "abstract interpretation with the length of the path relative to the entry of every function, and provenance of what it's extended with",
     "Every path through the functions below Resolve: they leave the path as long as it was, extend it before and shorten it after errors can be recorded, with the name written as key or the index of the element. "
     "The separators between the parts of a path are decided by C01; that names need no escaping is decided by the grammar of names.")


prop("C09", "A part of a query is left out exactly when one of its directives skips it",
     "A field, fragment spread or inline fragment is left out of the response when one of its directives skips it, and not when none does: @skip does so for true, @include for false. "
     "All directives of it are evaluated, those with the name and for the location that's in the query; of what is left out nothing is written and no resolver is called.",
     ["inputs", "programs"], "all queries with any number of directives at all three locations, all registered directives",
     "The tests have one or two directives with constant arguments at each location; combinations of directives, locations and nesting aren't sampled.",
     ["resolver.go", "parse.go"],
     [("evaluation of directives", "resolver.go: resolveField, resolveSpread, resolveDirective"), ("skip and include", "parse.go: NewSchema")],
     "abstract interpretation with the outcome of directives as ghost state; the built in directives are interpreted for both values",
     "Every path through the functions below Resolve, without bound on loops and recursion. "
     "That the parser writes down all directives of a selection is assumed; that loops over directives end only when all are evaluated is decided on the form of their exits.")

prop("C14", "Every field and list element is resolved once, in order",
     "The response has every element of a list a resolver returned once, in the order of the list and with the same selection for each. "
     "A selected field calls its resolver once per object, and its response is the output of that call.",
     ["inputs", "programs"], "all queries, lists of any length with any elements, all resolvers",
     "The tests have lists of a few similar elements; one that's special for a nil, failing or repeated element, or for the length, is handled by none of them.",
     ["resolver.go"],
     [("elements of lists", "resolver.go: resolveFieldDataValue"), ("calls of resolvers", "resolver.go: callQlMethod, resolveField")],
     "abstract interpretation with the index of the next element and the calls of resolvers as ghost state",
     "Every path through the functions below Resolve: the indexes are compared symbolically with the number of elements taken so far and the length. "
     "reflect is trusted; that an element has its own value when it's resolved is decided by provenance of the value put on the stack.")

prop("C15", "The fields of an object are those of its own value",
     "Each field of a selection is read from, or called on, the Go value of the object the selection is of: the root value of the kind of operation for an operation, the value the resolver, field or list gave for a nested one. "
     "What was resolved before it in the same selection, in another list element, with an error or not, or by another request, makes no difference.",
     ["inputs", "programs", "histories"], "all queries and schemas: any nesting of objects, lists, pointers, interfaces and methods, with errors in any of them",
     "The tests resolve well formed selections of a few fields; a value that's left behind or replaced after an error in a list, behind an interface or at another depth isn't in them.",
     ["resolver.go"],
     [("stack of values", "resolver.go: getGoValue, setNextGoValue, setGoValue"), ("fields of objects", "resolver.go: resolveField, resolveFieldDataValue"), ("root values", "resolver.go: resolveOperation")],
     "abstract interpretation with the place on the stack of Go values relative to where a function started as symbolic value, and what was put on it as ghost state",
     "Every path through the functions below Resolve: the place is compared symbolically at every return, at every read of a value and at every selected field or method; a summary per function covers any depth. reflect is trusted.")

prop("C19", "Nothing a resolver returns after the context ended is used",
     "When the context of a request has ended by the time a resolver returns, the value it returned isn't resolved any further and the field has an error that the context ended. "
     "This holds for every resolver, and for cancelled contexts and deadlines alike.",
     ["inputs", "programs", "schedules"], "all queries and resolvers, with the context ending at any moment",
     "The tests end the context at one place of one query, and when it ends depends on timing.",
     ["resolver.go"],
     [("context asked after a call", "resolver.go: resolveFieldDataValue"), ("context of the options", "resolver.go: Resolve")],
     "abstract interpretation with the calls of resolvers and the answers of the context as ghost state",
     "Every path from a call of a resolver to the use of its output. Resolvers that are still running aren't interrupted, that's not promised.")

prop("C02", "Strings, numbers and booleans in a response are what the resolver returned",
     "A string in a response decodes to the string of the resolver: every character of it is there, once and in order, as itself or as an escape that means it, and only bytes that aren't UTF-8 are replaced. "
     "Integers, booleans and finite floats of each kind and size are written whole, with their sign and without loss. "
     "An ID is always a string: it's in quotes whatever type of integer it is, and other values never are because of it.",
     ["inputs"], "all strings, numbers and booleans of all Go kinds, as fields, list elements and IDs",
     "A test compares a few values, an escape that's wrong for one character, a part that's lost behind a rune of a certain size or a number that's cut for one kind is only seen with that value.",
     ["helpers/encodeString.go", "helpers/encodeFloat.go", "resolver.go"],
     [("writer of strings", "helpers: StringToJSON"), ("writer of floats", "helpers: FloatToJSON"), ("writer of values", "resolver.go: valueToJSON, resolveFieldDataValue")],
     "abstract interpretation of the writers, split by byte and class of runes, with the position in the source up to which is written as ghost state",
     "The text of a number is trusted to strconv. Infinite floats and NaN have no JSON and aren't in the statement.")

prop("C13", "A cached query is only used for exactly that query and operation",
     "Whether the parsed form of a query comes from the cache makes no difference: an entry is only used when the whole query and the name of the operation that was asked for are the ones it was stored for, "
     "it has everything the query was parsed to, it's never changed by what's parsed later, and a query with errors is never stored.",
     ["inputs", "histories"], "all sequences of queries and operation names",
     "The tests resolve one long query twice, what goes wrong for two queries or operations that are alike, or for a query that was cached before others were parsed, isn't seen.",
     ["bytecode/cache/bytecode_cache.go", "bytecode/bytecode.go"],
     [("cache", "bytecode/cache: GetEntry, SetEntry"), ("use of the cache", "bytecode: ParseQueryToBytecode")],
     "abstract interpretation with the comparisons with an entry and the provenance of its parts as ghost state",
     "Which entries are dropped is left to the implementation.")

prop("C16", "Names in a query only mean what has exactly that name",
     "A field is only resolved when its whole name is the one in the query, a fragment is only spread when its whole name is the one of the spread, and the selection behind a type condition is only resolved "
     "on the type with exactly that name. A variable is bound by the definition with its name, and when an operation is asked for by name, only one with that name is resolved. Upper and lower case differ.",
     ["inputs", "programs"], "all queries and schemas, with names that are alike: prefixes of each other, of the same length, differing in case or with the same hash",
     "The tests use names that differ from their first letter; names that are alike in the way a lookup is lax, by length, prefix or hash, aren't in them.",
     ["resolver.go", "bytecode/bytecode.go"],
     [("fields", "resolver.go: resolveField"), ("fragments and type conditions", "resolver.go: resolveSpread"), ("variables", "resolver.go: findOperatorArgument"),
      ("operations", "bytecode: parseOperatorOrFragment")],
     "abstract interpretation with the names that were compared, and where names end, as ghost state; lookup of inexact comparisons in the call graph",
     "Every path to the resolving of a field or selection, the binding of a variable and the choice of an operation. That what's not resolved gets an error is not a part of it, and arguments, enum values and "
     "directives are found by Go maps and comparisons of strings, for which only inexact functions are looked for.")

prop("C12", "Arguments arrive as they were given",
     "Every argument, input field and list element of a query, written in it or given as a variable, is bound to the Go field that was registered under its name, in a new value: a list has one element for each that "
     "was given, in the same place (also for null), an object only sets the fields it names, a pointer is set exactly when there is a value that's not null (also when that's 0, \"\", false, [] or {}), a text arrives "
     "whole. When a variable has a value it's that value that's bound, the default isn't. Binding a value never succeeds without setting it, unless null was given.",
     ["inputs", "programs"], "all queries, variables and input types",
     "The tests bind a few values each of which differs from the zero value, with all fields given; what's left from the element before, or lost when it's zero, null or empty isn't sampled.",
     ["resolver.go"],
     [("values written in a query", "resolver.go: bindInputToGoValue, walkInputObject, checkInputIsPtr"), ("variables", "resolver.go: bindOperatorArgumentTo, bindExternalVariableValue, bindJSONToValue"),
      ("arguments of a call", "resolver.go: callQlMethod")],
     "abstract interpretation of each recursive binding function on its own, the others replaced with their contract (it fails, it set the value, or it found null), with the target value and what was done with it as ghost state",
     "Every path through the functions that bind. That a number or enum value is the one that was written is C10 and C11, that a name is compared whole is C16. It's assumed that the parser only writes the kinds of values it declares, "
     "that reflect and fastjson do what they document; fastjson calling its visitor is modelled with up to two keys.")

prop("C04", "Errors are never lost, and nothing is called with what's invalid",
     "When a resolver returns an error it's recorded with its message, whatever it returns with it. A resolver or directive isn't called when something was wrong with its arguments, "
     "and a query that can't be parsed calls none at all. Resolving a selection only stops early after an error was recorded, and a request without an operation to resolve has an error. "
     "Every recorded error is in the response once, in order (unless it's asked for without meta data), and in what Resolve and HandleRequest return.",
     ["inputs", "programs"], "all queries, variables and resolvers, any number of errors",
     "The tests look at one error at a time, what happens to an error when there are others, in a batch, or next to a value, isn't sampled.",
     ["resolver.go", "bytecode/bytecode.go", "implement_helpers.go"],
     [("errors of resolvers", "resolver.go: resolveFieldDataValue"), ("arguments", "resolver.go: callQlMethod, bindInputToGoValue, bindJSONToValue"), ("errors of a request", "resolver.go: Resolve, err"),
      ("batches", "implement_helpers.go: HandleRequest")],
     "abstract interpretation with the error output of the last resolver, the errors recorded and the index of the next error to write as ghost state",
     "Every path through the functions below Resolve and HandleRequest. fastjson calling its visitor is modelled with up to two keys. That an argument of a wrong kind is recognised as such is not a part of it (see C10 and C11).")

prop("C07", "A copy of a schema answers exactly as the schema it was made from",
     "A schema made by Copy has all the original was given by registration and options: every type, field, resolver, argument, interface with its implementations, enum with its entries, directive, "
     "root value, limit of the depth and cache rule, each under its own name and at its own place. A request handled by a copy, or by a copy of a copy, gets the response the original would have given.",
     ["programs", "inputs"], "all schemas that can be registered, all copies of copies, all requests",
     "The tests resolve their queries with a copy too, but only of the schemas of the tests: what's lost for a kind of type, enum, limit or interface no test has, is not seen.",
     ["copy_schema.go"],
     [("copy of a schema", "copy_schema.go: Schema.Copy and the copy methods of each type"), ("what registration sets", "parse.go, enums.go, directives.go, interfaces.go")],
     "data and control dependence over SSA: access paths of the original each value of a copy is made of",
     "The fields that have to be copied are found in the code (set by registration, read by requests). Unbounded in schemas. That equal fields give equal answers is by C05 and C06.")

prop("C08", "No query makes yarql loop or recurse without end",
     "Whatever the text of a query, its variables and its batch: parsing it, binding its arguments, resolving it and writing its response comes to an end, without overflowing the stack. "
     "Every loop that's run for a request ends, also at the end of a text that's cut off, and every recursion is bounded by a limit: brackets of a query by a constant, "
     "objects, lists of objects and fragments that spread each other by MaxDepth (a selection deeper than MaxDepth is an error and isn't resolved), default values of variables by not being able to name variables.",
     ["inputs", "programs"], "all texts of queries and variables, all schemas (their own types aside)",
     "The tests have some queries that are cut off and one that's too deep. A loop that doesn't move on for one combination of bytes, or a default value that names itself, ends the process and is in no test.",
     ["bytecode/bytecode.go", "resolver.go", "implement_helpers.go", "helpers/encodeString.go"],
     [("loops of the parser", "bytecode/bytecode.go: parse methods, mightIgnoreNextTokens"), ("nesting", "bytecode/bytecode.go: parseSelectionSet, parseInputValue, parseGraphqlTypeName"),
      ("depth", "resolver.go: resolveFieldDataValue, resolveSpread"), ("variables of default values", "resolver.go: bindInputToGoValue, bindOperatorArgumentTo")],
     "progress analysis of loops over cursors (disjunctive intervals with the byte at the cursor and the ways calls return) and size-change termination of the recursions, over SSA",
     "All loops and recursions of what a request can run; recursions that only depend on the types of the schema are left out. That resolvers, readers of requests and fastjson return is assumed; how long a request takes isn't bounded "
     "(fragments can make it exponential in the length of the query).")

prop("C17", "What a query names must exist, and have the shape it is used with",
     "A name in a query or its variables that's not in the schema or the query itself is an error in the response: a field its type doesn't have, an argument a method doesn't have or that's given to what isn't a method, a property an input object "
     "doesn't have, a value an enum doesn't have, a directive, a fragment that's spread, a variable. It's never skipped in silence or replaced by something else. When a value of a field is resolved, an object or interface without "
     "a selection set is an error, in lists and behind pointers too, and so is a selection set on a scalar, ID, enum or time: neither is written as if the query was right.",
     ["inputs", "programs"], "all queries and variables, all schemas",
     "The tests have one or two names that don't exist for some kinds of names. Which of the many ways to find nothing stays silent, and for what kind of value, isn't something they sample.",
     ["resolver.go"],
     [("fields", "resolver.go: resolveField, resolveFieldDataValue"), ("arguments and properties", "resolver.go: callQlMethod, bindInputToGoValue, bindJSONToValue, assignStringToValue"),
      ("fragments and directives", "resolver.go: resolveSpread, resolveDirective"), ("variables", "resolver.go: findOperatorArgument")],
     "path exploration over SSA from the missing side of lookups and the end of searches, and of the kinds of values with and without a selection set",
     "Names whose lookup is in a map of a definition or a loop that compares names. __typename and what else is compared with a constant isn't followed. Whether what's recorded reaches the response is C04.")

prop("C18", "No response depends on the order in which Go goes over a map",
     "The same request on the same schema has the same response, in this process and in any other one, as far as that's up to yarql: the types, fields, arguments, input fields, enum values and directives of the introspection "
     "are always in the same order, and which of several names of an enum is written for a value is always the same. Lists that are filled from a map (whose order Go changes every time) are sorted, as a whole, "
     "before they are used, returned or kept, by something that tells their elements apart.",
     ["programs", "schedules"], "all schemas, every order of every map",
     "A test sees one order per run, small maps are often in order by chance, and the tests of the introspection only look for some names.",
     ["inject_schema.go", "enums.go"],
     [("introspection", "inject_schema.go: getQLSchema, getDirectives, getAllQLTypes, inputToQLType, getMethodArgs, objToQLType"), ("enums", "enums.go: registerEnumCheck")],
     "effect analysis of loops over maps and path analysis to where what they fill is used, over SSA",
     "All loops over maps of yarql, also by reflection. What resolvers return is up to them. Loops over maps that only fill maps, or look for an entry, are free. That comparing names tells elements apart rests on names being keys of maps.")

prop("X01", "The text of a float reads back as the same float",
     "Every finite float a resolver returns is written as a decimal that reads back as the same float.",
     ["inputs"], "all finite floats of 32 and 64 bits",
     "The tests write a few floats.",
     ["helpers/encodeFloat.go"], [("writer of floats", "helpers/encodeFloat.go: FloatToJSON")],
     na="The round trip depends on the digits strconv.AppendFloat makes for each value: a numerical fact over all 2^64 floats, and of library code. The static part (value, width, format and the rewriting of the exponent around that call) is decided by C02.")

prop("X02", "Fields with different names never share a place in a type",
     "Two fields of one type with different names are different fields for every query, also if the hash of their names is the same.",
     ["programs", "inputs"], "all names of fields in a schema and a query",
     "The tests have no names with the same hash.",
     ["parse.go", "resolver.go"], [("hash of names", "parse.go: getObjKey"), ("check of the name", "resolver.go: resolveField")],
     na="Fields of a type are in a map with the 32 bit FNV-1 hash of their name as key; whether two names of a schema collide is a fact about runtime strings and the hash function, not about the structure of the code. That a query never gets a field with another name than it asked for is decided by C16.")

prop("X03", "Handling a request allocates nothing when the schema is warm",
     "After the first requests, handling a request that was handled before allocates no memory in the library.",
     ["histories"], "all sequences of requests", "Benchmarks sample a few queries.",
     ["resolver.go", "bytecode/bytecode.go"], [("reused buffers", "resolver.go: Ctx")],
     na="How often a buffer grows and what escapes depends on sizes at run time, on the compiler's escape analysis and on reflect; a property of cost, no source-level argument bounds it.")

prop("X04", "A query is understood as the GraphQL specification says",
     "Every query is accepted exactly if the grammar and validation rules of the specification accept it, and means what the specification says (merging of fields, coercion of variables, block strings).",
     ["inputs"], "all queries", "The tests parse about a hundred queries.",
     ["bytecode/bytecode.go"], [("parser", "bytecode/bytecode.go: ParseQueryToBytecode")],
     na="Equivalence of a hand-written parser with the language of a specification on unbounded texts is no property a sound static argument in reach decides, and yarql deliberately implements a part of the specification (it has no validation phase and doesn't merge fields).")

prop("X05", "A request that is handled ends in time and order of what its resolvers take",
     "Resolvers are called one after another, and a request ends when they have; the same request gives the same answer each time if the resolvers do.",
     ["schedules", "histories"], "all resolvers and requests", "The resolvers of the tests are pure.",
     ["resolver.go"], [("calls of resolvers", "resolver.go")],
     na="Resolvers are arbitrary code: their termination, time and determinism can't be decided from the source of yarql. What yarql adds (order, once, cancellation, state between requests) is decided by C14, C19 and C05.")
