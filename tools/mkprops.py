#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

RP = "schema/ridl/"
PARSERS = [RP+"parser.go", RP+"lexer.go", RP+"tokenizer.go", RP+"definition_parser.go", RP+"import_parser.go",
           RP+"enum_parser.go", RP+"struct_parser.go", RP+"type_alias_parser.go", RP+"error_parser.go",
           RP+"service_parser.go", RP+"type_parser.go", RP+"error_list_parser.go", RP+"parser_util.go", RP+"ridl.go"]

p("C01", "A RIDL document is translated faithfully into a schema",
  "For every accepted RIDL document the schema contains exactly what the document declares, nothing lost, invented, reordered or moved to another owner: the header values, every alias, enum, struct, error and service in declaration order (aliases before enums before structs), every field, enum value, metadata pair, method, annotation, argument, optional mark, stream mark, succinct form and method error list. Defaults are exact: an enum member without a value gets its index (or its own name in a string enum), an error without a status gets HTTP 400, everything unmarked is required, non-streaming and not succinct. Layout that carries no meaning (blank lines, amount of white space, trailing comments, missing final newline, CRLF) never changes the schema.",
  ["inputs", "programs"], "all RIDL documents: every combination, order, count and layout of declarations",
  "The tests parse about a hundred fixed documents and compare a few attributes of each; most combinations (e.g. optional field followed by metadata and a trailing comment, streams with error lists, declarations in unusual order) are never written down.",
  PARSERS, [("parser state machine", RP+"parser.go"), ("two-pass schema construction", RP+"ridl.go:Parser.parse")],
  ["ridl.NewParser(...).Parse()", "WebRPCSchema fields", "ToJSON"])

p("C02", "Every schema input ends in a schema or an error",
  "For every byte string given as a RIDL file, an imported file or a JSON schema, parsing terminates and returns either a schema or a non-nil error, never both missing: it never panics, never ends or hangs the process, and leaves no goroutine behind. The same holds for every operation offered on an accepted schema (JSON export, hashing, service and annotation filters, tree shaking, bigint analysis), including schemas with recursive types.",
  ["inputs", "programs"], "all byte strings as RIDL, all JSON documents, all accepted schemas including recursive ones",
  "Tests feed well-formed documents and a handful of syntax errors; a crash needs an input nobody wrote down (a null in a JSON array, a struct used as map key, a self-referring struct under tree shaking).",
  PARSERS + ["schema/schema.go", "schema/type.go", "schema/service.go", "schema/error.go", "schema/var_type.go", "schema/parser.go", "schema/helpers.go"],
  [("lexer and parser loops", RP+"lexer.go, "+RP+"parser.go"), ("validation", "schema/*.go:Parse"), ("type walks", "schema/schema.go:MethodTreeShake, schema/helpers.go")],
  ["ridl.NewParser(...).Parse()", "schema.ParseSchemaJSON", "webrpc.ParseSchemaFile"])

p("C03", "Malformed RIDL is rejected, at the place where it is wrong",
  "A RIDL document that does not follow the grammar is never accepted: the parser does not skip, guess or drop a part it cannot place, and a rejected document yields no schema. The syntax error names the line, the column and the text of the token at which parsing stopped, in the file that contains it (0:0 stands for end of input). A document that follows the grammar is never rejected with a syntax error.",
  ["inputs"], "all token sequences in all grammatical positions",
  "TestSyntaxError and a few parser tests pin down about ten malformed documents; the language has thousands of short malformed token sequences per construct.",
  PARSERS, [("match/expect helpers", RP+"parser.go"), ("stateError", RP+"parser.go"), ("line/column bookkeeping", RP+"lexer.go:next, emit")],
  ["error returned by Parse()"])

p("C04", "Text written in a schema survives verbatim",
  "Every quoted text in a RIDL document (error messages, annotation values, metadata values, header values, paths, enum values) reaches the schema character for character, whatever Unicode characters, punctuation, '#', or reserved words it contains, with exactly the escapes backslash-n, backslash-t and backslash-quote decoded; an unknown or dangling escape, or a string not closed on its line, is an error. Unquoted words, names and comments keep their characters as well, and the JSON export carries the same text.",
  ["inputs"], "all strings over Unicode in all places where RIDL takes text",
  "Tests only use plain ASCII texts and two escapes.",
  [RP+"parser.go", RP+"parser_util.go", RP+"tokenizer.go", RP+"lexer.go", "schema/var_type.go"],
  [("unescapeString", RP+"parser_util.go"), ("composedValue / expectStringValue", RP+"parser.go"), ("ToJSON", "schema/schema.go")],
  ["schema text fields", "ToJSON"])

p("C05", "Doc comments belong to the definition they sit on",
  "The comment lines directly above a struct, type alias, service, method, struct field or enum member, plus a comment at the end of its own line, become that definition's documentation, line by line in order; for a method these are the comments above and on each of its annotation lines and its own line (the schema has no place for an enum's own comments). A blank line ends a comment block, lines starting with '#!' are never documentation, blanks inside a comment count as one, and no comment line documents two definitions. Comments never alter anything else in the schema.",
  ["inputs"], "all placements of comment lines, blank lines, trailing comments and annotations around all definitions",
  "Two tests cover one service and one struct layout.",
  [RP+"tokenizer.go", RP+"parser.go", RP+"service_parser.go", RP+"struct_parser.go", RP+"enum_parser.go", RP+"ridl.go"],
  [("parseComments consumes comment lines", RP+"parser.go"), ("tokenize collects comment lines", RP+"tokenizer.go")],
  ["comments of types, fields, services and methods"])

p("C06", "A schema is accepted exactly when it is well-formed",
  "A schema given as RIDL or JSON is accepted if and only if: the webrpc version is v1; a version is present when services exist; basepath is a plain path; type, field, service, method and error names are non-empty and unique ignoring case (error codes and JSON field names too); type and error names start with an upper-case letter; field and JSON names are identifiers; kinds are struct, enum or alias; enums have an integer or string type and a value for every member; struct fields have a type and no value; error codes are positive, messages present, statuses 400-599 and names not starting with 'webrpc'; services have methods; succinct methods have at most one input and one output that are structs; methods name only declared errors; and every type expression is valid. On acceptance basepath is normalised to begin and end with one added slash where missing, and nothing else is altered.",
  ["inputs", "programs"], "all schemas, in particular each rule broken alone, in any position and in combination",
  "Each test breaks one rule in one place; several rules have no test at all, and no test shows the converse (that well-formed schemas are all accepted).",
  ["schema/schema.go", "schema/type.go", "schema/service.go", "schema/error.go", "schema/parser.go", RP+"ridl.go"],
  [("Validate", "schema/schema.go"), ("Type.Parse", "schema/type.go"), ("Service.Parse, Method.Parse", "schema/service.go"), ("Error.Parse", "schema/error.go")],
  ["ParseSchemaJSON", "ridl Parse()"])

p("C07", "Type expressions resolve to exactly the types they name",
  "In an accepted schema every type expression is a core type, a list of a valid type, a map from a valid key type (string, an integer type, an enum or an alias of an enum) to a valid type, or the exact name of a declared struct, enum or alias, to whose declaration it refers. The resolved structure and the canonical text agree, the canonical text is the written one without spaces, and an unknown, empty or wrongly cased name, an invalid map key or an incomplete list or map is rejected wherever it is used.",
  ["inputs", "programs"], "all type expressions at all nesting depths, in fields, aliases, enums, arguments and returns, over all sets of declared types",
  "Tests use about twenty expressions, two levels deep.",
  ["schema/var_type.go", "schema/core_type.go", RP+"type_parser.go", RP+"ridl.go"],
  [("ParseVarTypeExpr, parseMapExpr, buildVarTypeExpr", "schema/var_type.go"), ("expectType", RP+"type_parser.go")],
  ["VarType.Expr, .Type, .List, .Map, .Struct, .Enum, .Alias"])

p("C08", "Imports merge the whole import graph once, flat and filtered",
  "A file's schema consists of what its imports provide, in import order, followed by its own declarations; an import provides every type, error and service of the imported file's own schema (so imports are transitive), or only the listed names when members are listed. Paths are relative to the importing file, a definition reached along several paths appears once, two different definitions of the same name are rejected, header values come only from the file itself, and an unreadable or invalid imported file makes the whole parse fail with an error that shows the chain of importing files.",
  ["programs", "configurations"], "all acyclic graphs of files in any directory layout with any distribution of declarations and member lists",
  "Tests have three fixed trees of at most five files.",
  [RP+"ridl.go", RP+"import_parser.go", RP+"internal/graph/graph.go"],
  [("imports loop, cache, member filter", RP+"ridl.go:Parser.parse"), ("newImportError", RP+"ridl.go")],
  ["schema of the root file", "error text"],
  [("cache", "schemas of files already parsed", RP+"ridl.go:Parser.cache")])

p("C09", "Circular imports are always rejected, and only those",
  "Parsing a file from which, following imports, some file can be reached that imports itself directly or indirectly fails with an error; it never loops, and which cycle, how long, how deep or in which order imports are written makes no difference. Any acyclic import graph, however often files are shared, is never reported as circular.",
  ["programs", "schedules"], "all directed graphs of imports",
  "One test has one cycle; the graph is built incrementally while parsing and combined with a cache, so order matters.",
  [RP+"ridl.go", RP+"internal/graph/graph.go"],
  [("IsCircular on the growing import graph", RP+"internal/graph/graph.go"), ("importParser", RP+"ridl.go")],
  ["Parse() error"],
  [("imports", "import graph so far", RP+"ridl.go:Parser.imports")])

p("C10", "JSON export and import are inverse, deterministic and hash-stable",
  "Exporting any accepted schema to JSON and parsing that JSON gives an equal schema, whose export is byte-identical and whose hash is the same; the export contains every declaration and attribute. The same input always gives the same export and hash, and schemas that differ in any exported attribute have different exports and hashes. JSON that uses different formatting, key order or string escapes for the same content gives the same schema and hash (whether a list is missing, null or empty may show in the export).",
  ["inputs", "programs"], "all accepted schemas and all JSON spellings of them",
  "Golden files fix the export of three schemas; the return direction is never tested on RIDL-born schemas.",
  ["schema/schema.go", "schema/parser.go", "schema/var_type.go", "schema/type.go", "schema/service.go", "schema/error.go", "schema/core_type.go"],
  [("ToJSON / SchemaHash", "schema/schema.go"), ("VarType.MarshalJSON / UnmarshalJSON", "schema/var_type.go")],
  ["ToJSON", "SchemaHash", "ParseSchemaJSON"])

p("C11", "Service and annotation filters select exactly what was asked",
  "After selecting services by name, exactly the services with those names remain (all, if no names are given); after ignoring (or matching) methods by annotations, exactly the methods carrying none (or at least one) of the given annotations remain, where an annotation given with a value must have that very value and one given without (or with blanks only) matches any value. Surviving services, methods, types and errors are unchanged and keep their order, and any sequence of filters gives the same result as applying each in turn to the declarations.",
  ["inputs", "histories"], "all schemas, all filter arguments, all sequences of filters",
  "Tests apply single filters to schemas with at most two services and no combination.",
  ["schema/schema.go"],
  [("MatchServices, MatchMethodsWithAnnotations, IgnoreMethodsWithAnnotations", "schema/schema.go")],
  ["returned schema"])

p("C12", "Tree shaking keeps exactly the types the kept services need",
  "Tree shaking for a set of services keeps a type if and only if it can be reached from an argument or result of one of their methods through lists, maps (keys and values), struct fields and aliases, keeps the order of types, and leaves services and errors alone. The result, restricted to those services, is again a valid schema with no dangling type name, recursive types included.",
  ["inputs", "histories"], "all schemas, all type graphs including recursive ones, all service subsets",
  "There is no test of tree shaking at all.",
  ["schema/schema.go"], [("MethodTreeShake", "schema/schema.go")], ["returned schema", "re-validation of the result"])

p("C13", "BigInt analysis is exact and independent of declaration order",
  "The bigint analysis lists, for each struct and for the implicit request and response of each non-succinct method, in order, exactly the members that are bigint, a list of bigint, or a struct (or list of structs) from which a bigint member can be reached through struct and list-of-struct members, each in its documented form; succinct methods and members without bigint contribute nothing, and the yes/no question is true exactly when some struct, argument or result has such a member. The answers do not depend on the order of declarations or on recursion between structs, and the schema is not modified.",
  ["inputs", "programs"], "all schemas, all (mutually) recursive struct graphs, all declaration orders",
  "Tests use a few acyclic schemas; memoisation meets recursion only in untested orders.",
  ["schema/helpers.go"], [("SchemaUsesBigInts, SchemaBigIntFieldsByType", "schema/helpers.go")],
  ["returned map and flag"])

p("C14", "Each RPC reaches its own handler once and returns its own result",
  "A client call to a method invokes exactly that method of the server implementation, exactly once, with equal arguments, and returns to that caller exactly what the handler returned, for any number of concurrent calls on shared clients and servers. The handler's context carries its own request, response writer, service and method name; nothing leaks between calls, and headers given to one call go with that call only.",
  ["schedules", "inputs"], "all interleavings of concurrent calls, all argument and result values",
  "The interoperability test makes about thirty calls one after another with fixed values.",
  ["tests/client/client.gen.go", "tests/server/server.gen.go"],
  [("ServeHTTP dispatch and serve*JSON", "tests/server/server.gen.go"), ("doHTTPRequest", "tests/client/client.gen.go")],
  ["handler invocations", "client results"])

p("C15", "Every RPC failure reaches the caller as the right typed error",
  "Whenever a call does not succeed, the caller gets a typed webrpc error: a schema error returned by a handler or hook arrives with its code, name, message, status and cause; any other handler error arrives as the endpoint error carrying its text; a panic as the server panic error if somebody above recovers it (it is raised again after it was reported); transport failures, cancellation, unreadable or undecodable replies as the request-failed or bad-response errors. HTTP status on the wire equals the status of the error, and one failing call never disturbs another.",
  ["fault_sequences", "schedules"], "all failure points of a call (before sending, in transport, in routing, decoding, hooks, handler, encoding, reply) and all error values",
  "Tests check eighteen schema errors returned by one handler, and no transport or decoding fault.",
  ["tests/client/client.gen.go", "tests/server/server.gen.go", "tests/server/server.go"],
  [("sendErrorJSON", "tests/server/server.gen.go"), ("doHTTPRequestRaw", "tests/client/client.gen.go")],
  ["client error", "HTTP status and body"])

p("C16", "The RPC server admits only well-formed requests, in a fixed order of checks",
  "The server runs a handler only for a POST to the exact path of a declared method with content type application/json (any case, parameters allowed) whose body decodes, after the request hook, if any, accepted it; otherwise it answers with the bad-route, bad-method (with Allow), bad-request or the hook's error, in that precedence, without running the handler. Each request gets exactly one response carrying the webrpc header, and the error hook sees every error exactly once and may replace it.",
  ["inputs", "configurations", "histories"], "all paths, methods, content types, bodies, hook behaviours",
  "No test sends a malformed request or installs a hook.",
  ["tests/server/server.gen.go"], [("ServeHTTP", "tests/server/server.gen.go")], ["HTTP response", "hook and handler invocations"])

p("C17", "webrpc-gen generates from exactly the schema its flags describe",
  "For every schema file and combination of -service, -methodTreeShake, -ignore, -match, -schemaVersion (or its environment variable) and -out, webrpc-gen hands the target exactly the parsed schema after tree shaking, service selection and annotation filtering in that order, with default basepath /rpc/ when services exist and the overridden version, and flags it does not know become template options verbatim. Invalid flags or schemas give a non-zero exit and no output file, and a target that cannot be fetched is rendered from the templates kept of it. Output that is no valid source of the target language is still written, but reported by the exit status unless -silent is given, and -help and -version show the help of the named target and the version without generating anything.",
  ["configurations", "inputs"], "all combinations of flags and schemas",
  "cmd/webrpc-gen has no test.",
  ["cmd/webrpc-gen/main.go", "gen/gen.go", "schema/schema.go"],
  [("main", "cmd/webrpc-gen/main.go"), ("Generate", "gen/gen.go")], ["stdout, output file, exit status of webrpc-gen"])

p("C18", "A schema file means the same however it is addressed",
  "Opening a schema file gives the same schema or the same refusal whether the path is absolute, relative, contains dot segments or starts in any working directory; imports may reach parent directories; the file kind is decided by the extension alone (.ridl or .json), any other extension and any unreadable file is an error, and a RIDL file and the JSON export of it open to equal schemas.",
  ["inputs", "configurations"], "all spellings of a path, all working directories, all directory layouts",
  "No test calls the file entry point.",
  ["webrpc.go", RP+"ridl.go"], [("ParseSchemaFile", "webrpc.go")], ["webrpc.ParseSchemaFile"])

p("C19", "Parsing is independent of history and concurrency",
  "Parsing the same files gives the same schema, byte-identical export and the same error text, regardless of what was parsed before in the process, of other parses running at the same time, and of filters applied to schemas obtained earlier.",
  ["schedules", "histories"], "all interleavings of parses and schema operations",
  "Tests parse sequentially, each document once.",
  [RP+"ridl.go", RP+"parser.go", RP+"lexer.go", "schema/schema.go"],
  [("per-parser state; goroutines with channels in lexer and parser", RP+"lexer.go, "+RP+"parser.go")],
  ["ToJSON of repeated and concurrent parses"])

p("C20", "Template helpers agree with the schema's type system",
  "In templates the type helpers classify every type of a schema as exactly one of core, list, map, struct, enum or alias, and the key, value and element helpers return exactly the component types, for types nested to any depth, given as schema objects (from text alone core types, lists and maps are told apart); minVersion is true exactly when the version's major.minor is not below the required one; the generic helpers (dict, get, set, exists, array, append, first, last, in, default, coalesce, ternary, sort, join, split, lastIndex and the string ones) do what the documentation says for all texts, non-ASCII included. Lists behave as values (a list made with append never changes another one) while a dict is shared by everybody who holds it.",
  ["inputs"], "all type expressions, all versions, all helper arguments",
  "gen/funcmap_test.go tests a few values (and cannot even be compiled here).",
  ["gen/funcmap.go", "gen/funcmap_types.go", "gen/funcmap_flow.go", "gen/funcmap_generic.go", "gen/funcmap_dict.go", "gen/funcmap_string.go"],
  [("templateFuncMap", "gen/funcmap.go")], ["output of templates run by webrpc-gen with a local target"])

p("C21", "Remote templates are the ones fetched last, whole, and never a mixture",
  "When webrpc-gen is given a remote target, its output is rendered from exactly the templates of one successful fetch of that target's repository, directory and version (different targets share nothing, spellings of one target share everything): it fetches when no complete copy is kept, when the kept copy is at least one hour old, or when -refreshCache is given, and otherwise uses the kept copy. A successful fetch replaces the kept copy entirely and renews its age; when it fails the kept copy is used and its age is not renewed, and without a kept copy the run fails and writes no output. A run that is killed, or that cannot write, while it stores templates never leaves a mixture of versions, or part of one, that a later run uses.",
  ["histories", "crash_points"], "all histories of publications, failures, waiting times, runs and interruptions, over any number of targets",
  "No test fetches templates: it takes a sequence of runs, a server, the passing of time and a crash in the middle.",
  ["gen/template_source.go", "gen/gen.go", "cmd/webrpc-gen/main.go"],
  [("NewTemplateSource", "gen/template_source.go")], ["webrpc-gen against a git server on the loopback interface: output, exit status, and whether it fetched"])

p("C22", "The reference suite passes exactly the servers that implement the reference API",
  "webrpc-test's client mode makes every call of the reference schema against the server it is pointed at, sends back exactly the values it was given, and exits with success if and only if every call was answered as the reference API demands (results that decode, both enum collections complete, every schema error with its code, name, message, status and, if given, cause), naming the calls that failed. Its server mode is a correct reference implementation that serves until its timeout and then exits with success, and fails at once if it cannot listen; waiting succeeds exactly when a server answers in time. Version, schema text and schema JSON are printed exactly, and any other command line is refused with a non-zero exit status.",
  ["inputs", "fault_sequences", "configurations"], "all servers (deviations in any answers), all command lines, all requests to the reference server",
  "The one test runs the suite against the reference server only, in process: no deviating server and no command line is ever tried.",
  ["cmd/webrpc-test/main.go", "tests/client/client.go", "tests/server/server.go", "tests/embed.go"],
  [("main", "cmd/webrpc-test/main.go"), ("RunTests", "tests/client/client.go"), ("TestServer", "tests/server/server.go")], ["exit status, output, requests on the wire"])

p("C23", "A stream delivers every message once, in order, and ends as its handler did",
  "For every call of a streaming method the caller receives, writer by writer, exactly the messages that the handler wrote into its stream, each once, in order and unchanged, each as soon as it was written and never those of another stream, while keep-alive messages and the fragmentation of the connection stay invisible. The stream ends once: as finished when the handler returned, with the handler's own error (code, name, message, status, cause) or as a server panic when it failed, as lost when the connection broke, and as aborted when the caller gave up, which also ends the handler's context. A request refused before the handler (no such method, wrong verb or content type, undecodable arguments, refusing hook) is answered by that error instead of a stream, and error and request hooks run once each.",
  ["schedules", "inputs", "fault_sequences", "histories"], "all interleavings of writers, readers, cancellations, connection breaks and pings of any number of concurrent streams",
  "The one streaming test (in an example module the suite does not run) lets one client read what one server sends and breaks one connection; schedules, several writers, refusals and hooks are never tried.",
  ["_examples/webrpc-streaming/proto/chat.gen.go"],
  [("streamWriter", "_examples/webrpc-streaming/proto/chat.gen.go:streamWriter"), ("streamReader", "_examples/webrpc-streaming/proto/chat.gen.go:streamReader"), ("service handler", "_examples/webrpc-streaming/proto/chat.gen.go:serveSubscribeMessagesJSONStream")],
  ["messages and errors the client's Read returns", "handler, hooks, bytes of the reply"])

p("C24", "Lookups and type answers agree with what the schema declares",
  "Asked for a type or service by name, a schema answers with exactly the declaration of that name, in whatever letter case it is asked, and with nothing if there is none; this also holds after filters and tree shaking, which never make a kept declaration unfindable or a dropped one findable. A type expression is parsed against a schema exactly if it is well-formed there, resolves to the declarations it names, and keeps its text, also through JSON; required fields are exactly the fields not marked optional, in order. Asking never changes the schema.",
  ["inputs", "histories"], "all schemas, all names and type texts asked for, all sequences of filters before",
  "No test asks for a name at all; templates rely on these helpers for every type they meet.",
  ["schema/schema.go", "schema/type.go", "schema/var_type.go", "schema/core_type.go", "schema/var_name.go", "schema/parser.go"],
  [("GetTypeByName, GetServiceByName", "schema/schema.go"), ("RequiredFields", "schema/type.go"), ("ParseVarTypeExpr", "schema/var_type.go"), ("VarName", "schema/var_name.go")],
  ["results of the lookup methods on an accepted schema"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
