
DEC="exhaustive enumeration of call scripts and, for two concurrent callers, of every interleaving of the freshly generated decorators (real client libraries) on a controlled scheduler"
decnote="Every listed method shape, arity, outcome and option combination is executed on decorators generated from /repo's templates and compared with a reference model; concurrent pairs are explored exhaustively. Trusts the third-party libraries, the scripted implementation and, for opentelemetry, a stand-in API (the library is not installed). Shapes and histories beyond the bounds are not covered."
for i in ["D01","D09","D10","D11","D12","D13"]:
    C[i]=(DEC,decnote)

C["G01"]=("exhaustive enumeration of method signatures over a bounded type grammar, each rendered by the real command and compared with the interface by go/types identity",
 "All type expressions of the grammar up to nesting depth 2 (selected constructors: 3) in parameter, result and variadic position, named and anonymous, for both output packages and several type parameter lists; unexported types at every position must be refused. Trusts go/types and the go command. Deeper nesting and other leaves are outside the bound.")
C["G02"]=("exhaustive enumeration of interface structures (element kinds x ways of reaching the target x output package), each generated by the real command and its method set compared with go/types",
 "Covers own methods and every embedding kind (same file, other file, other package, alias, defined type, literal, generic instance, builtin) through 24 forms of reaching the target interface, singles and pairs. Trusts go/types and the go command. Larger combinations are outside the bound; methods named through one identifier for two packages may be refused.")

C["G03"]=("exhaustive enumeration of naming and typing combinations of parameters and results, each rendered by the real command and compared with a reference naming model and, for the emitted signatures, with go/types",
 "All methods over the stated alphabets of names and types (anonymous, blank, reserved, generated-looking, non-ASCII), with the reference model's full naming rule checked per method and the rendered code type-checked. Longer lists and other names are outside the bound.")
C["C05"]=("exhaustive enumeration of argument lists up to a length bound and of all single-edit neighbours of complete commands, each run on the real binary and compared with a reference model of the documented contract",
 "Every argument list up to length 3 (thorough 4) over the alphabet, every deletion, insertion, replacement and swap in complete commands, odd texts in every error position, unwritable standard output. The network is a loopback stand-in. Output paths whose directory is no valid package name are only checked not to crash.")
C["C06"]=("exhaustive enumeration of strings up to a length bound, pushed through the real binary's template helpers and compared with reference definitions",
 "Every string up to the length bound over an alphabet of lower, upper, digit, underscore, separator, multi-byte and invalid bytes. Longer strings and other code points are outside the bound; invalid UTF-8 only has to be accepted by up, down and snake.")
C["C07"]=("exhaustive enumeration of -v lists, flags and interface kinds, each run through the real binary to a template that dumps what it sees, compared with a reference model",
 "All lists of up to three -v arguments over an alphabet of names, separators and values, and the interface/type-parameter/import views for the enumerated interfaces. Longer lists are outside the bound.")

C["G07"]=("exhaustive enumeration of argument lists of the import helper and of source import sets, uses, templates and local prefixes, each generated by the real command and judged by go/types and the parsed import declarations",
 "All argument lists up to length 3 over 14 spellings x 5 source import sets; all import sets of up to 2 (thorough 3) of 12 forms with every used/unused split, four templates, five prefixes. Trusts go/types, go/parser and the goimports convention for what a local prefix matches.")
C["C01"]=("exhaustive enumeration of places, template references, variable lists and prefixes; every directive is parsed by an independent reading of go generate's rules, run by the real go generate, and the regenerated bytes compared",
 "All -v lists up to length 2 (thorough 3) over 27 spellings, and the place/template/output/prefix combinations listed. The network is a loopback stand-in. Source packages given as .go files, symlinked directories and files ignored by the go command are outside the bound.")

C["C02"]=("exhaustive enumeration of (failure stage x prior state of the output) and of file-size faults at every offset step, run on the real command; the whole directory tree is compared before and after, and histories of runs are explored to a depth",
 "21 stages x 18 prior states, write faults injected by file size limits from 0 to the full output, all histories of length 3 (thorough 4) over 7 kinds of run. Power loss and faults of close/rename themselves are outside the bound.")
C["C03"]=("exhaustive enumeration of (reference form x local state x git situation x state at the checkout's root x remote answer), each resolved by the real command over a loopback stand-in network and compared with a reference model of the resolution order",
 "All stated combinations, for gen and copy; requests made and bytes used are compared. Contents: 17 odd texts through every source. A path whose parent is a regular file may be treated as missing or unreadable.")
C["C04"]=("exhaustive enumeration of HTTP outcome sequences: every delivery of scripted response bodies in process, and every outcome class for each request of the real command over a loopback stand-in network, compared with a reference model",
 "In process: all splits and fault points of short bodies, every truncation of the JSON answers, statuses, close errors, both requests at fault; network: whole, chunked, compressed, cut, refused, redirected answers. Truncation of a body that ends with the connection cannot be observed and is outside.")

C["G04"]=("exhaustive enumeration of method shapes x naming x helpers: a template that uses every helper is generated by the real command for each method, compiled, and executed for every arity and zero/non-zero values, its observations compared with the method's reflected type; exhaustive enumeration of comment layouts",
 "About 4,500 methods (quick) rendered six ways in two packages, compiled by the Go compiler and run against a recording implementation: arguments, results, struct fields, map entries, names, comments. Longer lists, other types and names that hide what the signature mentions (known findings) are outside the bound.")
C["G05"]=("exhaustive enumeration of template x interface shape x destination x naming x import configurations, each generated by the real command and judged by go/types (compiles, implements)",
 "Every hosted template x a matrix of about 400 method shapes x four destinations x DecoratorName, pairs of decorators in one package, interface and method names, import aliases, package names, and every identifier of the generated code as a parameter or result name. opentelemetry is type-checked against a stand-in API (the library is not installed). The known findings list the names that a template's own code still hides.")
C["G06"]=("exhaustive enumeration of map iteration orders of the instrumented generator (every range over a map is a choice point), and of (excluded file x content x directory), regeneration histories and environments on the real command; the bytes are compared",
 "Every single map iteration in every order (up to 4 keys; beyond: reverse, rotations, swaps), all reversed, all rotated, for about 200 packages of 3 to 5 files; iteration inside third-party packages (goimports) is not controlled: its random picks for unimported standard names are known findings. Thorough adds pairs of iterations and deeper histories.")

C["G08"]=("exhaustive enumeration of histories of making and using generators of the real library with shared options, each step compared with a generator in a process of its own",
 "Every history of 3 steps (thorough 4) over 7 sets of options, up to 3 live generators and failing writers; every order of using 2 and 3 generators; references, aliases, destinations and prefixes combined. Generators used from several goroutines at once are outside: the library does not promise that.")
C["G09"]=("exhaustive enumeration of malformed declarations over a bounded grammar, of type cycles, of pairs of odd source files and of template fragments, each run through the real command and judged by how it ends",
 "All stated combinations; memory is limited to 4 GB of address space and time to a minute per run. Grammar depth is 1 constructor in each place; quick takes a fifth of the declarations.")
