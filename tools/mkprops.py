#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FED="grpc/federation/"
prop("C01","State shared between concurrent work is only touched under its lock",
 "Whatever requests, evaluations, plugin calls or editor notifications run at the same time, every access to state they share happens while the lock protecting that state is held (exclusively for writes), and no caller is handed a live reference to such state that outlives the lock. So no data race, lost update or concurrent map access is possible.",
 ["schedules"],"all interleavings of concurrent requests, variable evaluations, plugin calls, editor notifications and file-watch events",
 "Tests run a handful of schedules; a missing lock on a rarely contended map passes all of them, also under the race detector unless the accesses happen to collide.",
 [FED+"cel.go",FED+"log/context.go",FED+"cel/plugin.go","lsp/server/handler.go","generator/watcher.go"],
 [("CEL type helper maps","grpc/federation/cel.go CELTypeHelper"),("program cache","grpc/federation/cel.go CELCacheMap"),("evaluation variables","grpc/federation/cel.go LocalValue, MapIteratorValue"),("request logger","grpc/federation/log/context.go"),("open documents","lsp/server/handler.go")])
prop("C02","Locks and acquired resources are released on every path",
 "Every lock taken is released on every way out of the code that took it, including error and panic exits, and every file, watcher, compiled module, timer context or plugin instance that is acquired is closed or handed to an owner that closes it. No request, build or editing session can leave the process locked or leaking because it took an unusual exit.",
 ["fault_sequences","schedules"],"all exits (normal, error, panic) of all code that takes a lock or acquires a closable resource",
 "Tests take the success path; a lock or handle left behind on an error path is visible only when that error occurs and something else then needs the lock.",
 [FED+"cel.go",FED+"cel/plugin.go","generator/generator.go","generator/watcher.go","lsp/server/handler.go"],
 [("mutex regions","all functions that lock"),("plugin and runtime close","grpc/federation/cel/plugin.go"),("wasm runtimes of code generation plugins","generator/generator.go evalAllCodeGenerationPlugin")])
prop("C03","A panic in concurrent or user-supplied code never takes the process down",
 "A panic raised while a method is resolved, a dependency is called, a variable is evaluated, a plugin is run or a document is validated is turned into an error of that request or operation. It never terminates the server or the language server, and never leaves the waiting caller without an answer.",
 ["inputs","fault_sequences","schedules"],"all panics raised on any goroutine started by the runtime, the plugin host or the language server",
 "Whether a goroutine is covered by a recover is a property of every place that starts one; tests do not panic on each of them.",
 [FED+"error.go",FED+"lib.go",FED+"cel/plugin.go","generator/templates/server.go.tmpl","lsp/server/handler.go","lsp/server/text_document_sync.go"],
 [("recovering goroutine starter","grpc/federation/error.go GoWithRecover, RecoverError"),("timeout wrapper","grpc/federation/lib.go WithTimeout"),("generated method wrappers","generator/templates/server.go.tmpl")])
prop("C04","A failure while serving a request is never swallowed",
 "Any error produced while a request is evaluated - by an expression, a dependency call, a cast, a custom resolver, a plugin or an environment lookup - either ends the request with an error that carries it, or is explicitly ignored by the definition. A response is never built from a value whose computation failed.",
 ["inputs","fault_sequences"],"all failures of all fallible steps performed while a request is served",
 "The set of failing steps times the places they can fail in is far larger than the failures tests provoke.",
 [FED+"cel.go",FED+"lib.go",FED+"cel_plugin.go",FED+"cast.go",FED+"cel/plugin.go","generator/templates/"],
 [("definition evaluation","grpc/federation/cel.go EvalDef, evalMap, If, EvalCEL, SetCELValue"),("plugin response handling","grpc/federation/cel/plugin.go"),("generated error checks","generator/templates/*.tmpl")])
prop("C05","A failure while compiling, resolving or generating is never swallowed",
 "When reading configuration, compiling protos, resolving definitions, running a plugin, formatting or writing a file fails, the tool reports the failure and does not claim success; nothing is generated from an input that failed to load. Errors that occur together are all reported.",
 ["inputs","fault_sequences"],"all failures of all fallible steps of the command-line tools, the generator, the compiler, the resolver and the linter",
 "Tests provoke a few failures; whether each error value reaches the exit status depends on every single return statement in between.",
 ["generator/generator.go","generator/config.go","compiler/compiler.go","resolver/resolver.go","cmd/","grpc/federation/generator/decode.go"],
 [("generator driver","generator/generator.go"),("configuration","generator/config.go"),("error accumulation","resolver/context.go, resolver/error.go")])
prop("C06","Cancellation and deadlines reach everything a request waits for",
 "When the caller cancels or the configured timeout passes, everything the request is waiting for - dependency calls, retries, plugin executions, parallel evaluations - is told through its context and stops waiting, and the request returns promptly with the matching status. No wait in the runtime is unreachable by the request's context.",
 ["schedules","fault_sequences"],"all points at which a cancellation or deadline can occur while a request is in progress",
 "Timing-dependent: tests cancel at one or two points; a context that is replaced or not selected on shows only when cancelled during that very wait.",
 [FED+"lib.go",FED+"alias.go",FED+"cel/plugin.go","generator/templates/server.go.tmpl","generator/templates/retry.go.tmpl"],
 [("timeout wrapper","grpc/federation/lib.go WithTimeout"),("retry loop","grpc/federation/lib.go WithRetry, alias.go BackOffWithContext"),("plugin exchange","grpc/federation/cel/plugin.go")])
prop("C07","Plugin exchanges never mix, and a broken plugin fails instead of hanging",
 "Each call to a CEL plugin receives the response to its own request, however many calls run concurrently on one instance; and once an instance has failed, exited, been cancelled or closed, every pending and later call on it returns an error instead of waiting forever or reading stale data. Closing is safe at any time and any number of times.",
 ["schedules","histories","fault_sequences"],"all interleavings and histories of call, cancel, failure, garbage-collection and close on plugin instances",
 "Needs specific interleavings of concurrent calls with failures and close; tests perform single calls on healthy plugins.",
 [FED+"cel/plugin.go",FED+"cel/lib.go",FED+"cel/context.go"],
 [("instance exchange","grpc/federation/cel/plugin.go CELPluginInstance write/recvContent/Call/Close")],
 )
prop("C08","Plugin code runs only after its checksum has been verified",
 "WebAssembly code configured with a checksum - a CEL plugin loaded by the server or a code generation plugin run by the tool, from whatever source - is executed only if the checksum of exactly the bytes that are executed equals the configured one. A mismatch is an error and nothing is run.",
 ["inputs","configurations"],"all plugin files, sources (file, http, https) and configured checksums",
 "Tests supply matching checksums, or one mismatch on one path; every path from loading to execution has to be guarded.",
 [FED+"cel/plugin.go","generator/generator.go","generator/wasm.go"],
 [("runtime verification","grpc/federation/cel/plugin.go NewCELPlugin"),("generator verification","generator/generator.go evalCodeGeneratorPlugin, parse*SchemeOption")])
prop("C09","Numeric and enum conversions never silently change a value",
 "Whenever a number or enum is moved into a narrower or differently-signed type on the way between dependency, expression, plugin and response, a value that does not fit produces an error. It never arrives wrapped, truncated or reinterpreted.",
 ["inputs"],"all integer and enum values crossing a narrowing conversion in the runtime, its libraries and the code it generates",
 "Only boundary values expose a missing range check, on one of dozens of type pairs; tests use small numbers.",
 [FED+"cast.go",FED+"cel_plugin.go",FED+"cel/cast.go","generator/code_generator.go","generator/templates/cast.go.tmpl"],
 [("checked casts","grpc/federation/cast.go"),("plugin value conversion","grpc/federation/cel_plugin.go"),("which casts need validation","generator/code_generator.go castValidationNumberMap")])
prop("C10","Every proto type and status code maps to exactly one counterpart, both ways",
 "Each proto scalar, wrapper, enum, message, map, repeated type, well-known type, log level and gRPC status code is translated to the one Go, expression-language, zero-value and wire counterpart that denotes the same thing, and translating back gives the original. No kind is missing from any of these translations and no two share a result.",
 ["inputs","programs"],"all type kinds, well-known types, log levels and status codes, in every translation",
 "Tests use the common kinds; an entry that is missing or swapped affects only schemas that use that kind in that position.",
 ["types/types.go","resolver/types.go","resolver/cel.go","resolver/wellknown_types.go","generator/code_generator.go",FED+"generator/encode.go",FED+"generator/decode.go"],
 [("kind tables","types/types.go, resolver/types.go"),("expression-language types","resolver/cel.go ToCELType, fromCELType"),("Go types and zero values","generator/code_generator.go toTypeText, toMakeZeroValue")])
prop("C11","Standard-library functions behave as they are declared to expressions",
 "Every function and macro offered to expressions is callable with exactly the declared argument types, uses each argument in its own place, returns the declared type, and reports bad arguments as an evaluation error instead of crashing. No declaration shadows or overrides another.",
 ["inputs","programs"],"all calls expressible against the declared library signatures, with all argument values",
 "The library declares hundreds of overloads; tests call each with one benign argument list and one dispatch style.",
 [FED+"cel/strings.go",FED+"cel/time.go",FED+"cel/url.go",FED+"cel/list.go",FED+"cel/rand.go",FED+"cel/uuid.go",FED+"cel/math.go",FED+"cel/enum.go",FED+"cel/log.go",FED+"cel/metadata.go",FED+"cel/bind.go",FED+"cel/cast.go"],
 [("bindings","grpc/federation/cel/*.go CompileOptions"),("binding helpers","grpc/federation/cel/bind.go")])
prop("C12","Copies and derived contexts never share mutable state with their origin",
 "Deriving a request context, cloning a type, location or definition, or extending a list never lets a later change to one be seen through the other, and a clone carries every attribute of its original. Log attributes added for one branch of a request never appear in, or replace those of, another branch.",
 ["histories","schedules"],"all sequences of derive, extend and modify operations on contexts, attribute lists, types and locations",
 "Sharing is visible only when both copies are modified afterwards, in a particular order and with spare capacity in the shared array.",
 [FED+"log/context.go",FED+"context.go",FED+"error.go","source/clone.go","source/location_builder.go","resolver/types.go"],
 [("request loggers","grpc/federation/log/context.go, grpc/federation/context.go"),("location clones","source/clone.go"),("type clones","resolver/types.go Clone")])
prop("C13","Code generation plugins receive the complete resolved model, unambiguously",
 "The request sent to a code generation plugin contains every file, message, enum, service, variable, expression, dependency, error and plugin that the resolver produced, each with all of its attributes, and different elements never share an identifier. Reading the request back reconstructs the same model, or fails with an error.",
 ["programs"],"all resolvable sets of definitions, and for each every attribute of every element",
 "The round-trip test covers thirteen schemas; attributes those schemas do not use, and name clashes across messages, are never compared.",
 [FED+"generator/encode.go",FED+"generator/decode.go"],
 [("encoder","grpc/federation/generator/encode.go"),("decoder","grpc/federation/generator/decode.go")])
prop("C14","The same inputs always produce the same output, in the same order",
 "Generated files, diagnostics, formatted definitions, import lists and plugin requests depend only on the inputs and configuration: neither their content nor their order changes from run to run. No hash-order iteration is observable in any output.",
 ["schedules","programs"],"all runs of the tools on the same input, under every map iteration order and scheduling",
 "Hash order varies per run and shows only with two or more colliding entries; a test that passes once proves nothing about the next run.",
 ["generator/code_generator.go","generator/generator.go","resolver/resolver.go","resolver/graph.go","resolver/message.go","validator/validator.go"],
 [("map iterations","every range over a map in resolver, generator, validator, source, compiler"),("output sorting","generator/code_generator.go, resolver/message.go")])
prop("C15","Every reference in a definition is seen, wherever it is written",
 "A variable, message, method or import that is referenced from any position in which an expression may be written - conditions, arguments, maps, errors and their details, retries, validations, oneofs, environment and enum expressions - is counted as used, keeps what it refers to alive, and creates the dependency it implies. Nothing referenced is ever treated as unused, and no dependency is missed.",
 ["programs"],"all definitions, with references placed in every expression position",
 "The positions multiply with the expression kinds; tests place references in the usual few.",
 ["resolver/def.go","resolver/message.go","resolver/value.go","resolver/graph.go","resolver/resolver.go","resolver/service.go",FED+"cel/conv.go"],
 [("reference names","resolver/def.go ReferenceNames, MarkUsed, MessageExprs"),("expression identifiers","resolver/value.go, grpc/federation/cel/conv.go"),("imports in use","resolver/resolver.go lookupPackageNameMap*")])
prop("C16","Invalid definitions are always rejected, valid ones never",
 "Each rule the tool enforces - names, types of bound fields and arguments, enum and alias compatibility, oneof and default rules, required responses, timeouts, retry and error settings, unresolvable names - is reported as an error for every definition that violates it and for none that satisfies it. No rule can be escaped by where in the definition the violation is placed.",
 ["programs"],"all sets of definitions, valid and invalid",
 "The invalid-definition tests show each message once, in one place; the same rule has to fire in every other position and never on valid input.",
 ["resolver/resolver.go","resolver/service.go","resolver/context.go"],
 [("validation rules","resolver/resolver.go validate*, resolve*"),("error accumulation","resolver/context.go")])
prop("C17","Every diagnostic points at the definition that caused it",
 "An error or warning carries the file, line and column of the very element that caused it, for every kind of element that can be wrong, including elements inside nested messages, lists, maps, conditions and error details. Looking up what is at a position and looking up the position of an element are inverse to each other.",
 ["programs","inputs"],"all elements at which a diagnostic can be raised, and all positions in a document",
 "A location is a path of a dozen steps; tests compare a few of the hundreds of possible paths.",
 ["source/location.go","source/location_builder.go","source/file.go","resolver/error.go","resolver/resolver.go"],
 [("location paths","source/location_builder.go, source/location.go"),("position lookup","source/file.go FindLocationByPos, NodeInfoByLocation")])
prop("C18","The resolved model says exactly what the options in the schema say",
 "Every option written in a schema ends up in the resolved model at the place, with the value and under the name it was written for; nothing is dropped, swapped with a sibling, merged with a default or attached to another element. Defaults apply only where nothing was written.",
 ["programs"],"all combinations of file, service, method, message, field, oneof, enum and enum-value options",
 "Resolver tests compare the models of a few sample schemas; option combinations they do not use are unconstrained.",
 ["resolver/resolver.go","resolver/message.go","resolver/field.go","resolver/enum.go","resolver/service.go","resolver/extension.go"],
 [("option resolution","resolver/resolver.go resolve*Rule, resolve*Expr"),("extension decoding","resolver/extension.go")])
prop("C19","The generated server does what the resolved model says, and is valid Go",
 "For every resolved model the generated server declares, evaluates, casts, binds and returns each element the way the model says - each variable's condition, call, arguments, type and error handling included - and the text is syntactically valid Go in every branch of the generator. Two different models never yield the same behaviour by accident.",
 ["programs"],"all resolvable models and every branch of the code generator and its templates",
 "Generator tests compare the output for sample schemas; branches those schemas do not reach are never rendered.",
 ["generator/code_generator.go","generator/templates/","generator/protoc_gen_go_grpc.go","generator/funcs.go"],
 [("view of the model","generator/code_generator.go"),("templates","generator/templates/*.tmpl")])
prop("C20","Dependency order is respected and cycles are rejected",
 "A variable is evaluated only after everything it refers to, variables that do not depend on each other are evaluated independently, each exactly once, and every cyclic dependency - between variables or between messages, reachable from a root or not - is reported as an error instead of hanging or being dropped.",
 ["programs","schedules"],"all dependency graphs of variables and messages",
 "Graphs in tests are small and acyclic, or one simple cycle; the property is about every shape of graph.",
 ["resolver/graph.go","resolver/message.go","resolver/resolver.go","generator/templates/server.go.tmpl"],
 [("dependency graph","resolver/graph.go"),("evaluation groups","resolver/graph.go VariableDefinitionGroups, generator/code_generator.go")])
prop("C21","Evaluation honours conditions, caching and scoping for every request",
 "A guarded definition is evaluated exactly when its condition is true and otherwise leaves its zero value; a compiled expression is reused only for the same expression in the same type environment; each request, map element and message sees exactly the variables in its own scope. An optional or null intermediate value behaves as the language defines.",
 ["inputs","histories","schedules"],"all requests and sequences of requests, with all variable values",
 "Cache and scope mistakes need two requests or nested scopes with different values in a certain order; conditions need both outcomes in every position.",
 [FED+"cel.go",FED+"context.go","generator/templates/eval.go.tmpl"],
 [("definition evaluation","grpc/federation/cel.go EvalDef, EvalDefMap, If, SetCELValue"),("program cache","grpc/federation/cel.go CELCacheMap"),("scopes","grpc/federation/cel.go LocalValue, MapIteratorValue")])
prop("C22","Errors reach the client exactly as the definition says",
 "The status code, message, details, ignore rules, log level and retry decision applied to a failed dependency call or validation are those of the first error definition whose condition holds, evaluated with the error in scope; without a match the original error is returned unchanged. Details are attached in order and none is lost.",
 ["inputs","fault_sequences"],"all dependency errors, validation outcomes and error definitions",
 "Which handler applies depends on condition values, order and the kind of the error; tests check one handler at a time.",
 [FED+"error.go",FED+"validation.go",FED+"lib.go",FED+"cel.go",FED+"otel.go","generator/templates/error_handler.go.tmpl","generator/templates/validation.go.tmpl"],
 [("error definitions","generator/templates/error_handler.go.tmpl, grpc/federation/cel.go SetGRPCError, IgnoreAndResponse"),("logging of errors","grpc/federation/error.go OutputErrorLog")])
prop("C23","The language server answers every request and never misplaces an answer",
 "For every document state, including broken and half-written ones, and every cursor position, definition, completion and highlighting requests answer with the element at that position or with nothing, use the latest content of the document, and never crash or stop the server. Positions sent and received always refer to the same characters.",
 ["inputs","histories"],"all document contents, edit sequences and cursor positions",
 "Editor tests use a few fixed positions in well-formed files.",
 ["lsp/server/handler.go","lsp/server/definition.go","lsp/server/completion.go","lsp/server/semantic_tokens.go","lsp/server/validator.go","lsp/server/text_document_sync.go","resolver/candidates.go"],
 [("handlers","lsp/server/*.go"),("completion candidates","resolver/candidates.go")])
prop("C24","Generation produces every requested output, once, at the configured path",
 "Each configured plugin runs for every input file it applies to with its own complete request and options, each produced file is written exactly once to the configured location, and changes seen while watching - created, modified, deleted or renamed files - lead to exactly the corresponding updates. Options in every documented form are honoured and unknown ones rejected.",
 ["configurations","histories"],"all configurations, plugin sets, option strings and sequences of file events",
 "Tests run one configuration with one plugin and no watch events.",
 ["generator/generator.go","generator/config.go","generator/watcher.go","generator/wasm.go","cmd/grpc-federation-generator/main.go","cmd/protoc-gen-grpc-federation/main.go","resolver/file.go"],
 [("driver","generator/generator.go"),("configuration","generator/config.go"),("watching","generator/watcher.go"),("output paths","resolver/file.go")])
prop("C25","The linter reports every problem the compiler and resolver found",
 "Each compile error, resolve error and warning is shown once, with its own position, severity and message, in document order, and the exit status says failure exactly when there is an error. Nothing found is dropped on the way to the user, whatever kind of error it is.",
 ["inputs","configurations"],"all combinations of compile errors, resolve errors and warnings, and output options",
 "Tests lint a few files whose problems are of the common kind.",
 ["validator/validator.go","cmd/grpc-federation-linter/main.go","resolver/error.go","compiler/compiler.go","lsp/server/validator.go"],
 [("output","validator/validator.go"),("error extraction","resolver/error.go ExtractIndividualErrors")])
prop("C26","Imports resolve to the intended file, whatever the layout",
 "A proto file is found, compiled and named relative to the import path that really contains it, files given by path, import or in memory are the same file when they have the same name, and every import - explicit, through federation options or of the built-in definitions - is available to the compiler exactly when it is needed. Similarly named directories or files are never confused.",
 ["configurations","inputs"],"all directory layouts, import path lists and import statements",
 "Tests use one or two import paths; prefix collisions and overlapping roots do not occur in them.",
 ["compiler/compiler.go","resolver/resolver.go","resolver/std_fd.go"],
 [("import path resolution","compiler/compiler.go"),("federation imports","resolver/resolver.go resolveFileImportRule")])
prop("C27","Formatting a resolved definition reproduces that definition",
 "Printing a resolved message, service, enum or field rule in schema syntax yields every option that was set, under the right name, nesting and quoting, and nothing that was not set. Reading the printed text again denotes the same definition.",
 ["programs"],"all resolved definitions",
 "Format tests print a few sample rules; elements these samples lack are never printed.",
 ["resolver/format.go","resolver/graph.go","resolver/message.go"],
 [("formatter","resolver/format.go"),("dependency tree format","resolver/message.go DependencyGraphTreeFormat")])
prop("C28","Values move between types with exactly the conversion those types need",
 "For every pair of source and target type allowed by the rules - aliases, enums, oneofs, repeated fields, maps, nested messages, numbers - the conversion needed is declared and applied, in every nesting, and it copies every field of the target from its counterpart; pairs that need none get none. Recursive types terminate.",
 ["programs","inputs"],"all pairs of compatible types, nested arbitrarily",
 "Sample schemas convert a few type pairs; nested, recursive and alias combinations are unbounded.",
 ["resolver/type_conversion.go","resolver/message.go","generator/code_generator.go","generator/templates/cast.go.tmpl"],
 [("required conversions","resolver/type_conversion.go"),("cast generation","generator/code_generator.go CastField, generator/templates/cast.go.tmpl")])
prop("N01","A federated response equals the naive evaluation of its definition",
 "For every request, the response of the generated server equals the one obtained by evaluating all definitions one after another without caching, grouping or concurrency.",
 ["inputs","programs"],"all schemas and all requests","Equality of computed values over all schemas and requests is beyond sampling.",
 [FED+"cel.go","generator/templates/server.go.tmpl"],[("evaluation","grpc/federation/cel.go")])
prop("N02","Retries and timeouts happen at the configured moments",
 "The n-th retry of a call starts after the configured interval, multiplier and jitter allow, and a timeout fires within a small bound of its configured duration.",
 ["schedules"],"all policies and all call durations","Wall-clock behaviour under load cannot be settled by a few timed runs.",
 [FED+"lib.go"],[("back-off","grpc/federation/lib.go NewConstantBackOff, NewExponentialBackOff")])
prop("N03","The expression language computes the values its specification defines",
 "Every expression over every assignment of its variables evaluates to the value the language specification gives it, including arithmetic, time zone, string and regular-expression semantics.",
 ["inputs","programs"],"all expressions and variable values","The value space is unbounded and most of the semantics lies in third-party code.",
 [FED+"cel/"],[("library semantics","grpc/federation/cel/*.go")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
print(len(P))
