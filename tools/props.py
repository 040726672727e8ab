#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

p("G01","Rendered method signatures denote exactly the interface's types",
 "For every interface method that gowrap accepts, each parameter and result type it renders is the identical Go type the interface declares: same element types, channel directions, array lengths, variadics, function, struct (tags included) and interface literals, generic instantiations and package qualification. This holds both when the decorator is generated into the interface's own package and when it is generated into another package. A method whose types cannot be named from the destination package (unexported types) makes generation fail instead of producing something else.",
 ["inputs","programs","configurations"],"all type expressions built from Go's type constructors (pointer, slice, array, map, channel in each direction, func, variadic, struct, interface literal, generic instantiation, local/imported/builtin names), nested, in parameter and result position, same-package and cross-package output",
 "Tests print a couple of dozen hand-written AST nodes and compare strings; the space of nested type expressions times destination package is unbounded and the tests never type-check the generated code.",
 ["printer/printer.go","generator/types.go","generator/generics.go","generator/generator.go"],
 [("type printer","printer/printer.go PrintType"),("parameter rendering","generator/types.go NewParam"),("package qualifier","generator/generator.go NewGenerator")],["type-checked generated file"])
p("G02","The method set offered to templates is exactly the interface's",
 "When generation succeeds, the methods given to the template are exactly the methods of the named interface by Go's rules: its own methods and those of every embedded interface, at any depth, from the same file, another file or another package, through generic instantiation and defined types, each with the instantiated signature. No method is dropped, invented or given another method's signature. A name that is not an interface with methods, or that cannot be resolved, makes generation fail.",
 ["inputs","programs"],"all interface declarations over a grammar of own methods, embedded interfaces (local, other file, imported, aliased import, diamond, builtin error, generic with one or two arguments, nested generic) and defined-type targets, spread over one or two files and packages",
 "Tests embed a fixed handful of interfaces and mostly check internal helper results on hand-built ASTs; they never compare against Go's own method-set computation.",
 ["generator/generator.go","generator/generics.go","pkg/package.go"],
 [("embedded interface walk","generator/generator.go processInterface/processEmbedded/processSelector/processIdent"),("generic substitution","generator/generics.go buildGenericParamsString"),("source file selection","pkg/package.go AST")],["type-checked generated file"])
p("G03","Parameter and result names are unique, usable and conventional",
 "In every rendered signature all parameter and result names are distinct non-blank valid identifiers, so the method body can refer to each of them. Names written in the interface are kept unless they are blank, are one of the reserved names ctx and err, or clash with a name already given. A trailing result of type error is always called err and a leading parameter of a Context type is always called ctx. The template is told that a method returns an error exactly when its last result's type is written error, that it accepts a context exactly when its first parameter's type is a package's type named Context, and that a parameter is variadic exactly when it is.",
 ["inputs","programs"],"all methods with up to three parameters and three results whose names range over anonymous, blank, err, ctx, names that look generated, and repeated prefixes, and whose types range over string, int, error, context.Context, variadic and other prefixes",
 "Tests cover a few naming cases; clashes appear only for particular combinations of written and generated names across parameters and results.",
 ["generator/types.go"],[("name allocation","generator/types.go NewMethod/makeParams/NewParam/genName")],["template-visible Method fields","type-checked generated file"])
p("G04","Template helper renderings agree with the method they describe",
 "For every method, the helpers available to templates (Call, Pass, Declaration, Signature, ParamsNames, ResultsNames, ParamsStruct, ParamPtrsStruct, ResultsStruct, ParamsMap, ResultsMap, ReturnStruct, HasParams, HasResults, and the parameter list's String and Pass) render code that compiles and means what is documented. A call rendered by them passes every argument once, in order, spreading a variadic one; structs have one field per parameter or result in order with its type (a slice for a variadic); maps contain each name once bound to that variable; and returning from a struct returns every field in order. Doc and line comments of methods and parameters reach the template unchanged.",
 ["inputs","programs"],"all method shapes with 0-3 parameters and 0-3 results over a small set of types including variadic and func types",
 "Tests check each helper on one or two hand-built methods and compare strings; consistency between helpers over all shapes is not tested and nothing is compiled or executed.",
 ["generator/types.go"],[("helpers","generator/types.go Method.* / ParamsSlice.*")],["compiled and executed generated file"])
p("G05","Every hosted template yields compiling decorators that implement the interface",
 "For each of the hosted templates and every ordinary non-generic exported-method interface, generation either fails with an error or produces a file that compiles and whose decorator type implements the source interface. This holds in the interface's package and in another package, for new and existing destination packages, with and without a chosen DecoratorName, and whatever mix the interface has of context/no-context, error/no-error, variadic, named/anonymous, result-less and parameter-less methods. Import aliases in the file declaring the interface and the names of its packages, parameters and results do not change this; names that start with an underscore are left to the templates.",
 ["inputs","programs","configurations"],"all 17 hosted templates x all combinations of method shapes up to the bound x destination package kinds x DecoratorName",
 "templates_tests compiles 16 committed outputs for one interface; nothing regenerates them, and most templates are never exercised on other method shapes or destinations.",
 ["templates/circuitbreaker","templates/elasticapm","templates/fallback","templates/grpc_validate","templates/log","templates/logrus","templates/opencensus","templates/opentelemetry","templates/opentracing","templates/prometheus","templates/ratelimit","templates/retry","templates/robinpool","templates/syncpool","templates/timeout","templates/twirp_error","templates/twirp_validate","templates/validate","generator/generator.go","cmd_generate.go"],
 [("templates","templates/*"),("generation","generator/generator.go Generate")],["type-checked generated file"])
p("G06","Generation is a pure function of its inputs",
 "The generated file is byte-for-byte the same on every run with the same sources, template and flags. It does not depend on the order in which files, methods or imports happen to be visited, nor on whether a previous version of the output file already exists. Files excluded from the build by build constraints never influence the result.",
 ["schedules","inputs","histories"],"every iteration order of every map ranged over during generation, for packages with several files, embedded interfaces and imports; and regeneration histories of the same output",
 "Go randomises map iteration, so a test sees a few orders by chance; an order-dependent result passes most runs.",
 ["generator/generator.go","pkg/package.go","cmd_generate.go"],[("file iteration","generator/generator.go iterateFiles"),("import lookup","generator/generator.go findImportPathForName"),("import list","generator/generator.go Import")],["output bytes"])
p("G07","Import sections contain every needed import once, correctly formed",
 "The import helper available to templates returns one import declaration listing the source file's imports and the given ones, each exactly once, quoted properly whether or not it was given with quotes or surrounding spaces, in sorted order, ignoring empty entries. The generated file imports exactly the packages it uses, under the names it uses them by, including the renamed imports of the file that declares the interface. Imports under a requested local prefix form their own group after all others.",
 ["inputs","configurations"],"all lists of up to three import arguments over an alphabet of quoted, unquoted, half-quoted, padded, empty and repeated paths; all small sets of aliased/plain imports in the source file; local prefix on/off",
 "One example test per behaviour; combinations of duplicates, quoting and aliases are not covered.",
 ["generator/generator.go"],[("import helper","generator/generator.go TemplateInputs.Import"),("source imports","generator/generator.go makeImports")],["generated import declarations"])
p("G08","Generators made by a program are repeatable and independent",
 "In a program that uses the generator as a library, every Generate writes exactly what a generator made from the same options in a program of its own would write, however many generators were made or used before, whether they succeeded or failed, and however often this one was used. Options may share slices, maps, functions and preloaded packages; making or using a generator changes none of them. A preloaded source package gives the same as its path, and takes precedence over it; a source package alias replaces the default name of the source package everywhere. Generate writes nothing when it fails and reports the writer's error.",
 ["histories","inputs"],"all histories, up to a depth, of making generators from options that share what a caller can share, generating with them and generating into failing writers; all combinations of source reference, alias, destination and local prefix",
 "Tests make one generator per test and generate once; leaks between generators through shared slices, caches and package variables need a history.",
 ["generator/generator.go","pkg/package.go"],
 [("construction","generator/generator.go NewGenerator"),("output","generator/generator.go Generate"),("package loading","pkg/package.go Load/AST")],["bytes written by Generate","the caller's options"])
p("G09","Wrong sources and templates are refused cleanly",
 "Whatever the source directory and the template contain, right or wrong, generation ends: without crashing, hanging or exhausting memory, either with success and an output that parses, or with exit status 1, a diagnostic, nothing on standard output and no output file. Types that are made of themselves are refused. Go declarations written in a template, other than imports, appear in the output token for token.",
 ["inputs","programs"],"all declarations built from a grammar of places, type constructors and operands without regard to what Go allows; all cycles of types up to a length; pairs of source files of all kinds (empty, cut, other encodings, other packages, excluded); templates of up to two or three fragments, broken ones included",
 "Tests use well-formed sources; a crash needs one of very many combinations of constructs that parse but make no sense where they are.",
 ["generator/generator.go","generator/generics.go","generator/imports.go","generator/types.go","printer/printer.go","pkg/package.go","cmd_generate.go"],
 [("declaration walk","generator/generator.go findMethods/processEmbedded/processInterface"),("type printer","printer/printer.go PrintType"),("import grouping","generator/imports.go")],["exit status, standard error, output file"])
p("C01","The go:generate directive reproduces the generated file",
 "Unless disabled with -g, the generated file carries a single go:generate directive which, when run by 'go generate' from the file's directory, regenerates a byte-identical file: same package, interface, template, output, variables (in order, with their exact values) and local prefix. With -g no directive is emitted. The header marks the file as generated, names the template by its URL or its path relative to the output directory, and carries the destination's package name.",
 ["inputs","configurations","histories"],"all combinations of package reference, template location (same dir, other dir, absolute, remote URL), output location, up to three -v flags over an alphabet including spaces, quotes, '=' and '$', local prefix and -g; then running the directive under go generate's parsing rules",
 "Tests check that one substring of one header is present; no test runs the directive back.",
 ["cmd_generate.go"],[("header","cmd_generate.go headerTemplate"),("vars","cmd_generate.go varsToArgs")],["bytes of first vs regenerated output"])
p("C02","Generation is all-or-nothing on the output file",
 "If a gen run fails at any stage, whatever the cause, it reports an error and the output path is exactly as before: not created, truncated, or changed. If it succeeds, the output path holds exactly the complete generated source, replacing any earlier content, with missing parent directories created. The template, the sources and every other file are never modified.",
 ["fault_sequences","histories","inputs"],"every failing stage (flags, source package, template load, template parse, template execution early/late, formatting, directory creation, file write) x prior output state (absent, present, longer, read-only, directory) and sequences of runs",
 "Tests inject single failures and look only at the returned error, never at the output path.",
 ["cmd_generate.go","generator/generator.go"],[("write last","cmd_generate.go Run")],["file system before/after"])
p("C03","Templates are resolved local-first and used verbatim",
 "For gen, a template name that is an existing local file is always read from that file and nothing is fetched; only a name that does not exist locally is looked up remotely; a local file that exists but cannot be read is an error, not a remote lookup. An http(s) URL is fetched as such; a file:// reference is read relative to the working directory, or else to the root of the git checkout; anything else is looked up in the hosted repository. template copy resolves remote references the same way, without the local step. The template text used, and the one copied, is exactly the bytes of the resolved source.",
 ["inputs","fault_sequences"],"all combinations of reference form x local state (missing, present, unreadable, directory) x remote answer x git root answer",
 "Each branch has one test with mocks; cross combinations, and that no fetch happens when a local file exists, are not covered.",
 ["cmd_generate.go","loader/loader.go","loader/gitpath.go"],[("local first","cmd_generate.go loader.Load"),("reference forms","loader/loader.go Load")],["template bytes","recorded requests"])
p("C04","Remote template access is correct under every HTTP outcome",
 "For every sequence of HTTP outcomes (transport error, any status, malformed or empty JSON, short reads, a read error mid-body, a close error), loading, listing and copying a template either return exactly the bytes or names served with success status, or return an error with no template content; nothing truncated is ever accepted as a template. A hosted template is fetched at the latest commit that touched it and its pinned URL is reported. Every response body is closed exactly once, and template copy creates or changes the destination only on success, then with exactly the served bytes.",
 ["fault_sequences","inputs"],"all sequences of answers to the one or two requests each operation makes, with body delivered in chunks of every split and a fault at every read and at close",
 "Mocks inject one fault per test and always deliver bodies in one piece; body closing and fault combinations across the two requests are not checked.",
 ["loader/loader.go","cmd_template.go"],[("HTTP get","loader/loader.go get"),("hosted lookup","loader/loader.go fetchFromGithub"),("list","loader/loader.go List"),("copy","cmd_template.go fetch")],["returned bytes/error","Close calls","destination file"])
p("C05","Command line outcomes follow the documented contract",
 "For every argument list the tool terminates without crashing, exiting 0 only when it did what was asked (help included), 2 for incorrect usage (no or unknown command or subcommand, missing or malformed flags or arguments) and 1 for operational failures. Diagnostics go to standard error and nothing is written to standard output on failure; error texts appear verbatim, whatever characters they contain, and gen/template usage errors point to the matching help. Help lists every registered command, and help for a command lists its usage and flags.",
 ["inputs"],"all argument lists up to length four over an alphabet of commands, subcommands, flags, values and separators",
 "The main package has no tests; command tests call internal functions with a few argument lists.",
 ["cmd/gowrap/gowrap.go","command.go","cmd_generate.go","cmd_template.go","errors.go"],[("dispatch","cmd/gowrap/gowrap.go main"),("usage","command.go Usage")],["exit status, stdout, stderr"])
p("C06","Text helper functions meet their documented meaning for every string",
 "For every string, up and down change the case of every letter (of valid UTF-8), upFirst and downFirst change only the first character's case and leave the rest intact byte for byte, and replace replaces every occurrence. For valid UTF-8, snake yields lower case with words separated by underscores at case boundaries (a lower-case letter or digit followed by a capital, and the last capital of an acronym before a lower-case letter), adds or removes nothing else, and leaves an already snake-cased string unchanged. None of them ever fails. All other functions of the sprig library are available to templates and give what the library gives.",
 ["inputs"],"all strings up to length six over an alphabet of lower, upper, digit, underscore, separator, multi-byte and invalid bytes",
 "Tables of a few strings each.",
 ["cmd_generate.go"],[("helpers","cmd_generate.go helperFuncs/upFirst/downFirst/toSnakeCase")],["template output"])
p("C07","Command-line variables and flags reach the template exactly",
 "Every -v argument reaches the template as given: the text before the first '=' is the name, everything after it is the value verbatim, an argument without '=' is boolean true, and when a name is repeated the last one wins. The interface name, its qualified type, type parameters and imports seen by the template are those of the requested interface. Unset variables are absent, so template defaults apply.",
 ["inputs"],"all lists of up to three -v arguments over an alphabet of names and values with '=', spaces, quotes, empty parts and repeats",
 "Tests check one boolean and one key=value argument on an internal type, never through to a template.",
 ["cmd_generate.go","generator/generator.go"],[("flag parsing","cmd_generate.go vars.Set/toMap")],["template-visible values"])
p("D01","Decorators delegate faithfully for every method shape",
 "For every hosted template and method, when the decoration does not intervene (no validation failure, open circuit or exhausted retry), a call on the decorator calls the wrapped implementation with exactly the caller's arguments (variadic ones spread, the context being the caller's or derived from it) and returns exactly its results. Except for retries and fallbacks the wrapped method is called exactly once per call, and a panic in it propagates unchanged. Methods a decorator does not instrument go straight to the wrapped implementation.",
 ["inputs","programs","schedules"],"all hosted templates x method shapes x outcomes (value, error, panic) x variadic arity 0-2, sequentially and from two concurrent callers",
 "templates_tests calls one or two methods of one interface per decorator, on committed rather than regenerated code.",
 ["templates/circuitbreaker","templates/elasticapm","templates/fallback","templates/grpc_validate","templates/log","templates/logrus","templates/opencensus","templates/opentelemetry","templates/opentracing","templates/prometheus","templates/ratelimit","templates/retry","templates/robinpool","templates/syncpool","templates/timeout","templates/twirp_error","templates/twirp_validate","templates/validate","generator/types.go"],
 [("delegation","generator/types.go Method.Pass/Call")],["recorded calls of the wrapped implementation"])
p("D02","Fallback returns the first success, in time, exactly once per source",
 "A call tries the implementations in order, each at most once, starting the next when the previous one fails (where the method reports errors) or when the interval elapses without a result, and returns the result of the first one that finishes without error. It fails only if every implementation failed, naming each failure, or with the context's error if the context ends first; it never hangs while some implementation can still answer. After the call returns and the implementations have returned, nothing it started is left running.",
 ["schedules","inputs","fault_sequences"],"all interleavings of 1-3 implementations each succeeding, failing, or answering before/after the interval, with or without context cancellation, for methods with/without context and error",
 "Tests run six timed scenarios of one context-taking method; lost results, hangs and leaked goroutines depend on goroutine interleavings.",
 ["templates/fallback"],[("result channel, next signal, ticker","templates/fallback")],["caller's outcome","calls per implementation","live goroutines"])
p("D03","Retry makes the right number of attempts and returns the last one",
 "A method that returns an error is attempted once and then, only while the last attempt failed, again up to the configured number of retries, each retry waiting for the retry interval to tick; the results of the last attempt are returned unchanged. It stops as soon as an attempt succeeds, and for context-taking methods also when the context ends while waiting, returning the last attempt's results without another attempt. A retry count below one means a single attempt, and no timer outlives the call.",
 ["inputs","schedules","fault_sequences"],"all success/failure sequences up to retries+1 for retry counts -1..3, all cancellation instants, all method shapes, concurrent callers",
 "Tests cover three sequences for one method with real time.",
 ["templates/retry"],[("retry loop","templates/retry")],["attempt count, instants and results"])
p("D04","The circuit breaker opens, blocks and closes exactly as specified",
 "The circuit opens when the configured number of consecutive counted errors is reached; while it is open calls fail immediately with the circuit-open error without reaching the wrapped implementation; after the open interval calls pass again, and then one more error reopens it while a success or an ignored error closes it and resets the count. Errors matching the ignore list count as successes and are returned unchanged. Concurrent calls behave as some ordering of these checks and outcomes, without data races or deadlocks.",
 ["histories","schedules","inputs"],"all sequences up to depth six of {success, error, ignored error, wrapped ignored error, time step below/at/above the interval} x thresholds 0-3 x methods; all interleavings of two or three concurrent calls",
 "Tests run three fixed sequential scenarios of one method.",
 ["templates/circuitbreaker"],[("state","templates/circuitbreaker _lock/_consecutiveErrors/_closesAt")],["caller's outcome","calls reaching the base"])
p("D05","Rate limiting never exceeds its budget and never wedges",
 "At any time t after construction at most burst plus one call per elapsed rate period has reached the wrapped implementation, whatever the callers do. Each call that waits is released as soon as budget is available, each consumes exactly one unit, and none is lost: n waiting callers are all released within n periods. A call whose method takes a context and returns an error gives up with the context's error, without calling the implementation, if the context ends while it waits.",
 ["schedules","histories","inputs"],"all interleavings of one to three callers with burst 0-2, clock ticks and a cancellation; all sequential histories of calls and time steps up to depth",
 "One real-time test with a single caller.",
 ["templates/ratelimit"],[("token channel","templates/ratelimit _ticks")],["instants at which calls reach the base"])
p("D06","The pool serves each implementation to one call at a time and loses none",
 "At any instant each pooled implementation is executing at most one call; a call waits only while all are busy and is then served. Every implementation goes back to the pool when its call ends, whether it returns or panics, so after any history the pool still has all of them. An empty pool is refused at construction.",
 ["schedules","histories"],"all interleavings of two to four callers over one to three implementations, with panicking calls",
 "One test with three goroutines checks total time and call count under whatever schedule occurs.",
 ["templates/syncpool"],[("pool channel","templates/syncpool")],["overlapping executions per implementation"])
p("D07","Round robin distributes calls evenly under any interleaving",
 "Each call is served by exactly one implementation of the pool, and over any number of calls, from any number of goroutines, the counts served by any two implementations differ by at most one. Sequential calls visit the implementations cyclically. An empty pool is refused at construction (error, or panic for the Must variant).",
 ["schedules","histories"],"all interleavings of two or three callers with one to three calls each over pools of one to four implementations",
 "One test with a few concurrent calls; lost increments need a specific interleaving.",
 ["templates/robinpool"],[("counter","templates/robinpool counter")],["calls per implementation"])
p("D08","Timeouts bound exactly the configured context methods",
 "For a context-taking method with a positive configured timeout, the wrapped implementation receives a context derived from the caller's whose deadline is the earlier of the caller's and now plus that method's own timeout, and which is released when the call returns. With a zero or negative timeout it receives the caller's context unchanged. Other methods are unaffected, and caller cancellation and values remain visible.",
 ["inputs","schedules","histories"],"all methods x timeouts {negative, zero, short, long} per method x caller contexts {background, with value, cancelled, earlier/later deadline} x implementation durations",
 "Two timed scenarios of one method.",
 ["templates/timeout"],[("derived context","templates/timeout")],["context seen by the base"])
p("D09","Logging decorators record every call and its outcome",
 "Each call through the log and logrus decorators produces exactly one entry before delegating, naming the decorator and method with all parameters, and exactly one entry after it, with all results, also when the implementation panics. Outcomes with a non-nil error go to the error destination/level, all others to the normal one. Logging never alters arguments, results or the number of delegated calls.",
 ["inputs","programs","schedules"],"both templates x all method shapes x outcomes x concurrent callers",
 "A few calls of one method are compared to fixed strings.",
 ["templates/log","templates/logrus"],[("entries","templates/log, templates/logrus")],["log entries"])
p("D10","Prometheus decorators observe every call once with the right labels",
 "Each call through the prometheus decorator adds exactly one observation, in seconds, to the summary named by MetricName or by default <interface>_duration_seconds, labelled with the instance name, the method name and result 'error' exactly when the method returned a non-nil error and 'ok' otherwise. The observation covers the whole delegated call and is made whether the call returns or panics.",
 ["inputs","programs","schedules"],"all method shapes x outcomes x instance names x metric name variants x call histories",
 "The test calls one method and compares nothing about labels of other methods.",
 ["templates/prometheus"],[("observation","templates/prometheus")],["gathered metrics"])
p("D11","Tracing decorators open and close exactly one span per call",
 "For every context-taking method, each call through the opentracing, opencensus, opentelemetry and elasticapm decorators starts exactly one span, named after the configured instance or prefix, the interface (or component) and the method, a child of the span in the caller's context, passes the context carrying it to the implementation and ends it exactly once when the call returns or panics. A non-nil returned error is recorded on the span (or handed, with all parameters and results, to the span decorator when one is configured) and success is not marked as error. Methods without context are not traced.",
 ["inputs","programs","schedules"],"four templates x method shapes x outcomes x span decorator present/absent/nil x parent span present/absent x concurrent callers",
 "Mocks check one method with two outcomes; opentelemetry has no test at all.",
 ["templates/opentracing","templates/opencensus","templates/opentelemetry","templates/elasticapm"],[("span lifecycle","templates/*")],["recorded spans"])
p("D12","Validation decorators reject exactly the invalid calls",
 "For a method returning an error, the validate, twirp_validate and grpc_validate decorators check every argument that can validate itself, in order, before delegating; the first failure is returned (as is, as twirp invalid argument, or as gRPC InvalidArgument status, keeping its message) and the implementation is not called. If all validations pass, or there are none, the call is delegated unchanged. Methods that do not return an error are delegated without validation.",
 ["inputs","programs"],"three templates x all methods with up to three arguments each validating ok, failing, or not validatable, value or pointer or interface typed",
 "One argument, two outcomes.",
 ["templates/validate","templates/twirp_validate","templates/grpc_validate"],[("validation","templates/*validate")],["caller's error","calls reaching the base"])
p("D13","Twirp error decoration keeps the error and attaches the request",
 "When a method through the twirp_error decorator returns an error, the caller gets a twirp error carrying the request argument (one of them when there are several) as JSON metadata: the same code, message and metadata if it was a twirp error, otherwise an internal error wrapping the original. A nil error stays nil, results are unchanged, and methods that return no error or take no arguments are passed through as they are.",
 ["inputs","programs"],"all method shapes x outcomes (nil, plain error, twirp error with metadata) x argument values",
 "Two outcomes of one method.",
 ["templates/twirp_error"],[("injection","templates/twirp_error injectRequestDataToError")],["caller's error"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
