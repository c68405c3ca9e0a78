#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["(*Schema).Resolve / HandleRequest: response bytes, returned errors, resolver calls"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "An answer never depends on the requests served before it",
  "The response, the reported errors and the resolver calls of a request depend only on that request, the schema and what the host's own callbacks return: they are the same on a fresh schema instance and on one that has already served any sequence of other requests, including failing, cancelled, malformed, oversized and traced ones. Errors that were handed back for an earlier request do not change when later requests are served.",
  ["histories", "inputs", "fault_sequences"], "every sequence of requests (any mix, order, length and fault) served by one schema instance, and every position in it",
  "Tests send a handful of requests to a schema and check the first answer; the reused buffers, request state and caches only go wrong for particular orders of requests.",
  ["resolver.go", "bytecode/bytecode.go", "bytecode/cache/bytecode_cache.go", "inject_schema.go"],
  [("per-request reset of the context object", "resolver.go Resolve"), ("per-query reset of the parser", "bytecode/bytecode.go ParseQueryToBytecode"), ("lazily built introspection tables", "inject_schema.go getAllQLTypes/getTypeByName/Fields closures")],
  [("request context", "one per schema, reset and reused for every request", "resolver.go Ctx"), ("result buffer", "reused between requests", "parse.go Schema.Result")])

p("C02", "Query caching is invisible in the answers",
  "Whether, when and for how long the parsed form of a query is remembered makes no difference: at every cache threshold, for every sequence of queries and operation names, and beyond the cache's capacity, each request gets exactly the answer it gets when nothing is ever cached.",
  ["histories", "configurations", "inputs"], "every cache threshold, every sequence of (query, operation name) pairs including more distinct queries and lengths than the cache holds, every eviction choice",
  "One test resolves the same cached query a few times; collisions of length, fragments, operation names and eviction (which picks victims by random map order) are not sampled.",
  ["bytecode/bytecode.go", "bytecode/cache/bytecode_cache.go", "parse.go"],
  [("cache lookup and store", "bytecode/bytecode.go ParseQueryToBytecode"), ("entries keyed by length, query and target; eviction", "bytecode/cache/bytecode_cache.go")],
  [("bytecode cache", "length -> list of (query, target, bytecode, fragment offsets)", "bytecode/cache/bytecode_cache.go BytecodeCache")])

p("C03", "A copy of a schema answers exactly like its original",
  "A copy taken from a schema at any moment between requests answers every request - data, errors, introspection and limits - exactly as the original does. This stays true whatever the original, the copy, or copies of the copy have served before or serve afterwards.",
  ["histories", "configurations", "inputs"], "every schema, every history before the copy, every interleaving of later requests on original and copies, every depth of copying",
  "The existing copy tests run a few fixed queries on one fresh copy; fields that a hand-written deep copy forgets show only for particular requests or histories.",
  ["copy_schema.go", "parse.go", "inject_schema.go"],
  [("hand-written deep copy of every schema part", "copy_schema.go"), ("introspection closures bound to one schema", "inject_schema.go getQLSchema")])

p("C04", "Concurrent requests on separate copies never interfere",
  "When any number of copies of a schema serve requests at the same time, at most one request per copy, every request gets the response, errors, resolver calls, arguments and trace it would get if it were served alone. No two such requests ever touch shared mutable state without synchronisation, under any interleaving.",
  ["schedules", "histories"], "every number of copies, every assignment of requests to copies and every interleaving of their execution, down to single statements of the library",
  "No existing test serves two requests concurrently; interference depends on the interleaving.",
  ["copy_schema.go", "resolver.go", "inject_schema.go", "apollo_tracing.go", "bytecode/bytecode.go"],
  [("separate request context, parser, cache and tracer per copy", "copy_schema.go (*Ctx).copy"), ("read-only sharing of the parsed schema", "copy_schema.go")],
  observe=["response bytes, errors and resolver calls per request", "race detector as happens-before oracle over the simulated schedule"])

p("C05", "A request aborted by a panic in user code leaves nothing behind",
  "If user code called during a request (a resolver, a directive, a form-file lookup, a context or an error value) panics, the panic reaches the host unchanged. If the host recovers from it, the same schema instance serves every later request exactly as an instance that never saw the aborted request.",
  ["crash_points", "histories"], "every point at which user code is called during any request, and every sequence of requests before and after the abort",
  "No existing test lets a resolver panic; the state left half-built depends on where the abort happens (inside lists, fragments, arguments, tracing, nested objects).",
  ["resolver.go", "apollo_tracing.go", "bytecode/bytecode.go"],
  [("reset at the start of the next request instead of clean-up at the end of this one", "resolver.go Resolve")])

p("C06", "Every request gets one well-formed answer and cannot take the server down",
  "Any request - however malformed, truncated, corrupted or mistyped its query, variables, operation name, body or form - is answered after a bounded amount of work, without a panic or crash of the library, by exactly one well-formed JSON document. That document has a data member, and carries an errors list exactly when errors are reported to the host, one entry per error in the same order with the same message.",
  ["inputs", "fault_sequences", "histories"], "every byte sequence a network can deliver as query, variables or body, every transport, and every combination with failing resolvers and lookups",
  "Tests contain a few dozen well-formed queries and fixed syntax errors; truncation and corruption at an arbitrary byte of an arbitrary request is an unbounded space.",
  ["bytecode/bytecode.go", "resolver.go", "implement_helpers.go", "helpers/encodeString.go"],
  [("parser error paths", "bytecode/bytecode.go"), ("null written for failed fields, error list appended after data", "resolver.go Resolve, resolveFieldDataValue"), ("error responses of the transport layer", "implement_helpers.go HandleRequest")])

p("C07", "A resolver error is reported once, at its path, and harms nothing else",
  "Each error returned by a resolver adds exactly one entry to the response's errors, with the error's message and the response path of its field, in the order the resolvers ran. It changes no other field's data and stops no other resolver, whichever and however many resolvers fail and however deeply they are nested; the value returned together with the error is still delivered.",
  ["fault_sequences", "inputs"], "every set of failing resolver calls in every accepted request, at every nesting in objects, lists, interfaces and fragments",
  "Tests let one or two top-level resolvers fail; which combination of failures at which depth corrupts paths or siblings cannot be enumerated by hand.",
  ["resolver.go"],
  [("error recorded, traversal continues", "resolver.go resolveFieldDataValue valueTypeMethod"), ("path pushed and popped along the traversal", "resolver.go resolveField, arrays")],
  [("current path", "JSON-encoded path of the field being resolved", "resolver.go Ctx.path")])

p("C08", "When the request's context ends, later results are null with its error",
  "Once the Go context of a request has ended (cancelled or past its deadline), at whatever moment that happens, every field whose resolver returns afterwards is null in data and has one errors entry with the context's error at its path. Fields whose resolvers returned before keep their values, and the response stays well-formed. A context installed by a resolver replaces the previous one, or none, from that moment on.",
  ["crash_points", "schedules", "fault_sequences"], "every instant of every request at which its context can end or be replaced, including between a resolver's return and the use of its result",
  "Tests use one context that is already ended or ends at a fixed place; the instant of cancellation relative to the traversal is the quantifier.",
  ["resolver.go"],
  [("context checked after every resolver call", "resolver.go resolveFieldDataValue valueTypeMethod"), ("SetContext/GetContext", "resolver.go")])

p("C09", "Each selected resolver runs exactly once, in document order",
  "For an accepted request the resolver of every selected field is called exactly once per occurrence it is reached through (alias, list element, fragment), depth first in document order, with one mutation field finished before the next one starts, and the response lists the fields in that order. Fields and fragments excluded by a directive are never resolved, and every directive is evaluated each time one of its uses is reached. This holds whatever other resolvers do: fail, return nothing, take long, or end the context.",
  ["histories", "fault_sequences", "inputs"], "every accepted request, every outcome of every resolver call, every history of earlier requests that shared the instance's parsed queries",
  "Tests look at results, not at how often and in which order resolvers with side effects run, and not under failures.",
  ["resolver.go", "directives.go", "bytecode/bytecode.go"],
  [("selection set walk", "resolver.go resolveSelectionSet/resolveField/resolveSpread"), ("directive evaluation", "resolver.go resolveDirective")])

p("C10", "Batches and transports do not change an item's answer",
  "A batch is answered by a JSON array with one response per item in the order sent, each identical to the one the item gets when it is sent alone, whatever the other items are (malformed, failing, cancelling) and with all their errors reported to the host in that order. The same query, variables and operation name get the same answer over URL query, JSON body, text body and multipart form. If the form field cannot be read or the body is absent or not JSON, the answer is a well-formed error response and no resolver runs.",
  ["inputs", "fault_sequences", "histories"], "every batch composition, every transport, every failure of the body or form source",
  "Tests cover one small batch of healthy items and one request per transport.",
  ["implement_helpers.go", "resolver.go"],
  [("batch loop over one shared instance and result buffer", "implement_helpers.go HandleRequest"), ("body decoding", "implement_helpers.go getBodyData")])

p("C11", "Resolvers receive exactly the arguments sent, and may keep them",
  "Every resolver and directive receives exactly the argument values the client sent for it, whether they were written in the query, supplied as variables or taken from variable defaults; absent and null optional arguments arrive empty, and an integer that does not fit its Go type is rejected with an error instead of being altered. Text a resolver keeps stays unchanged whatever is served later.",
  ["inputs", "histories"], "every combination of argument types, value forms (literal, variable, default, null, absent, nested) and repeated use in one request, and every later history while received values are retained",
  "Tests bind a few values each to one argument and drop them at once; leaks between repeated uses and later overwriting need sequences.",
  ["resolver.go", "bytecode/bytecode.go", "parse.go"],
  [("argument binding from the parsed query", "resolver.go bindInputToGoValue"), ("variables decoded on first use and shared by later uses", "resolver.go bindExternalVariableValue, bindJSONToValue"), ("strings taken from reused buffers", "resolver.go assignStringToValue")])

p("C12", "File arguments deliver the host's file or fail cleanly",
  "A file argument reaches its resolver as exactly the file the host's form lookup returned for the name the client gave, whether the name was written in the query, in a variable or in a default. If the lookup fails, or the host offers none, the request is answered normally with an error at the field and that resolver is not called.",
  ["fault_sequences", "inputs", "histories"], "every use of file arguments in a request and every sequence of lookup outcomes (file, absent, error) on one instance",
  "One test uploads one file through a literal; failing or missing lookups and variables are not tried.",
  ["resolver.go", "implement_helpers.go"],
  [("form lookup during argument binding", "resolver.go assignStringToValue, bindJSONToValue"), ("lookup passed per request", "resolver.go Resolve, implement_helpers.go handleSingleRequest")])

p("C13", "A trace reports exactly the request's own fields and their true times",
  "With tracing on, each field that was resolved has exactly one trace record with its path, parent type, name and declared type, and its offset and duration are, on the monotonic clock, the time from the start of the request to the start of the field and the time the field took including everything below it. Jumps of the wall clock do not affect offsets and durations. Tracing changes neither data nor errors, and never shows anything of another request.",
  ["schedules", "histories", "fault_sequences"], "every request, every passage of time inside its resolvers, every wall-clock jump, every history or concurrent traffic on other copies",
  "Tests only check that some trace is present; real clocks cannot be asserted on.",
  ["apollo_tracing.go", "resolver.go", "parse.go"],
  [("start/finish of a record around each field", "resolver.go startTrace/finishTrace"), ("tracer reset per request", "apollo_tracing.go reset")],
  observe=["extensions.tracing of the response under a simulated clock"])

p("C14", "Introspection gives one answer, always and however it is reached",
  "On one schema instance every introspection question has the same answer at any time, in whatever order introspection and ordinary requests are served. A type is described the same however it is reached: in the list of all types, by name, as root type, or through fields, arguments, interfaces and possible types.",
  ["histories", "configurations"], "every order of introspection requests (which fill lazily built tables) mixed with other requests, over generated schemas",
  "Tests run one introspection query on a fresh schema; the lazily filled tables depend on which question came first.",
  ["inject_schema.go", "grahql_types.go", "parse.go"],
  [("memoised type list, type map and field lists", "inject_schema.go")],
  [("graphql type tables", "filled by whichever introspection request comes first", "parse.go Schema.graphqlTypesMap/List/ObjFields")])

p("C15", "Servers built from the same code answer identically",
  "Servers that are started independently from the same Go types, enums and directives answer every request - ordinary and introspection - with identical bytes, whatever order the runtime's randomised hash maps happen to iterate in.",
  ["schedules", "configurations", "inputs"], "every outcome of the runtime's map-iteration randomness while building and using the schema, over generated schemas and requests",
  "A test process sees one random outcome per run and compares only with fixed expectations that the outcome does not affect.",
  ["enums.go", "inject_schema.go", "parse.go", "directives.go"],
  [("sorting after collecting from maps", "inject_schema.go, enums.go")])

p("C16", "Request context values, Go context and path belong to their request",
  "A value that the host or a resolver puts on the request is seen by every later resolver of that request until it is replaced, and by no other request; the same goes for the Go context. The path a resolver is told is exactly the response path of the field being resolved.",
  ["histories", "schedules", "inputs"], "every sequence of sets and reads by the resolvers of interleaved and successive requests, with and without host-supplied values, at every nesting",
  "Tests set one value and read it back in the same request.",
  ["resolver.go", "implement_helpers.go"],
  [("values map taken from the request options", "resolver.go Resolve, SetValue/GetValue"), ("path of the traversal", "resolver.go GetPath")])

p("C17", "Nesting beyond the limit is refused with bounded work; below it is served",
  "A query nested beyond the schema's maximum depth - through fields, lists, interfaces or fragments that include themselves, over data that never ends - is answered with an error after a bounded amount of work and without crashing. A query that stays within the limit is answered completely and correctly at every depth, also the greatest, and neither kind affects later requests.",
  ["inputs", "configurations", "histories"], "every configured limit, every nesting depth below, at and above it, through every kind of nesting including self-including fragments",
  "Tests probe one depth through plain objects; interfaces, lists and fragments count differently and a stack overflow cannot be caught by a test.",
  ["resolver.go", "parse.go"],
  [("depth counter", "resolver.go resolveFieldDataValue, resolveSpread"), ("value stack of fixed size", "resolver.go Ctx.reflectValues")])

p("C18", "What an instance remembers about past queries stays bounded",
  "However many different requests an instance serves, the memory it keeps for past requests stops growing: the number of queries it remembers is bounded and old ones make room for new ones.",
  ["histories"], "every unbounded sequence of distinct queries, query lengths and operation names",
  "Tests never send more than a handful of distinct queries to one instance.",
  ["bytecode/cache/bytecode_cache.go", "bytecode/bytecode.go"],
  [("eviction when the cache is full", "bytecode/cache/bytecode_cache.go SetEntry")])

# Pure functions of their input: listed, not claimed (see DESIGN.md)
p("N01", "Go values are encoded as the JSON values GraphQL prescribes",
  "Every output value (string of any bytes, number, boolean, time, ID, enum, nil) is encoded as valid JSON that decodes to the same value.",
  ["inputs"], "every value of every supported Go kind", "Tests encode a few values.",
  ["helpers/encodeString.go", "helpers/encodeFloat.go", "helpers/time.go", "resolver.go"], [("encoders", "helpers")])
p("N02", "Every document of the supported query language is parsed as the spec says",
  "Every syntactically valid document within the supported language is accepted and means what the GraphQL specification says, independent of whitespace, commas and comments.",
  ["inputs"], "every document", "Tests parse a few dozen documents.",
  ["bytecode/bytecode.go"], [("parser", "bytecode/bytecode.go")])
p("N03", "Introspection describes the Go types the schema was built from",
  "The introspection result lists exactly the types, fields, arguments, enum values and nullability that the documented mapping derives from the Go types.",
  ["programs"], "every set of Go types", "Tests check a few types.",
  ["parse.go", "inject_schema.go"], [("type mapping", "parse.go, inject_schema.go")])
p("N04", "Unusable schema definitions are rejected when the schema is built",
  "Go types, enums, directives and names outside the supported set are refused with an error when the schema is built, never accepted and never a crash.",
  ["programs"], "every set of Go types, enum maps and directives", "Tests try a few invalid definitions.",
  ["parse.go", "enums.go", "directives.go", "type_rename.go", "interfaces.go"], [("checks", "parse.go, enums.go, directives.go")])
p("N05", "The tester helpers agree with the schema they inspect",
  "The helpers for testing a schema report a type, its kind and its fields exactly as the schema defines them.",
  ["programs"], "every schema and type name", "Tests ask about one schema.",
  ["tester/tester.go"], [("introspection query", "tester/tester.go")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
