# The properties, in the order of properties.jsonl.
T = "translator/translator.go"
GB = "generator/gen_bindings.go"
WHY = "The existing tests walk fifteen hand-written declarations with one rule set and never start the generator; %s"
PROPS = []


def prop(i, title, statement, over, quant, why, files, mech, observe, technique, note, **k):
    PROPS.append(dict(id=i, title=title, statement=statement, over=over, quant=quant, why=WHY % why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note, **k))


prop("C01", "Generated names are a function of the renaming rules alone",
     "The Go name of a C identifier is what the configured rules make of it: the global rules, then those of the identifier's kind (const, type, function), then post-global, then public or private, each list in its written order, every `replace` rewriting all matches of its pattern by its template and transform, and a result that is a Go keyword is escaped (`type` becomes `kind`, any other gets a leading underscore). Asking for the same name again, in any order and from any part of the run, gives the same answer. The generated functions, types, constants, struct fields and parameters carry exactly these names; only a function that would be called like the type it returns is named as `new_` before its C name would be.",
     ["configurations", "histories", "inputs"],
     "every rule set over the seven rule targets, every C identifier and every order of name requests",
     "the result depends on the composition of arbitrary regular expressions and on caches filled by earlier requests.",
     [T, "translator/rules.go", "generator/gen_common.go", "generator/gen_declares.go"],
     [("rule compilation and application", "translator/translator.go: getRuleActions, transformName, TransformName"),
      ("builtin rules", "translator/rules.go: builtinRules"),
      ("name cache", "translator/translator.go: transformCache")],
     ["translator.TransformName", "identifiers in the generated files"],
     "model-based property testing (rapid) of name request histories; end-to-end naming through the CLI",
     "Every generated rule set and request history is compared with an independent rewriting model. Trusts Go's regexp package.")

prop("C02", "Exactly the accepted declarations are bound, each once",
     "A C name is left out if an ignore rule of its kind matches it, else accepted if an accept rule of its kind matches it, and where no rule of its kind matches, the global rules decide in the same way; a name that no rule matches is left out. The generated package declares every accepted function, type, enumerator and macro of the public headers exactly once, also when the header declares it more than once, and nothing that was not accepted; what sits in a header listed in IgnoredPaths is left out. Enumerators of a named enum type also need that type to be accepted, struct and union tags need to be accepted as public names and as types, and macros without a known constant value are left out.",
     ["inputs", "configurations", "histories"],
     "every list of accept and ignore rules over all rule scopes and every set of declarations, also repeated or spread over headers",
     "whether a name is bound depends on the order of all matching rules, the declaration's kind and everything bound before it.",
     [T, "generator/gen_declares.go", "generator/gen_const.go", "generator/gen_bindings.go"],
     [("acceptance", "translator/translator.go: IsAcceptableName, checkIgnored, ignored paths"),
      ("declaring functions, types and unions", "generator/gen_declares.go"), ("constants", "generator/gen_const.go")],
     ["names declared in the generated files", "translator.IsAcceptableName"],
     "model-based property testing (rapid): names of the generated package against a reference of the rules",
     "The model of acceptance is written from the documentation; bare tags and repeated declarations included. References to types that are not accepted are outside the supported subset.")

prop("C03", "C types map to the documented Go types everywhere they appear",
     "Every parameter, result, struct field, typedef and callback of the generated package has the Go type that the C type maps to: fixed Go scalars by size and signedness of the target architecture, the renamed type for declared types, slices for parameter and field pointers and single pointers for results, arrays kept in fields and typedefs, string for parameters and results that point to constant characters when that mapping is on; bit fields, which Go cannot address, are left out. Pointer tips (arr, ref, sref) and type tips (plain, named, string) on a position change exactly that position.",
     ["inputs", "configurations"],
     "every combination of base type, qualifiers, pointer depth, array dimensions, position, target architecture, const-char switches and tips",
     "the mapping is a product of these dimensions and of the position.",
     ["translator/type_mapping.go", "translator/model_go_type.go", T, "translator/ast_walker.go"],
     [("specification lookup and tip application", "translator/translator.go: TranslateSpec, lookupSpec"),
      ("default type map", "translator/type_mapping.go"), ("slices and pointers", "translator/model_go_type.go: splitPointers")],
     ["declarations in the generated files"],
     "property-based testing (rapid): generated headers through the CLI, types compared with a reference mapping",
     "Types are read back from the generated source with go/parser and compared with a table written from the documentation. Pointer-to-array and multi-dimensional parameters are outside the supported subset.")

prop("C04", "Generated enum constants have the values C gives them",
     "Every accepted enumerator becomes a Go constant whose value is the one the C compiler gives it, whether implicit or given by any constant expression over literals, other enumerators and macros, whether or not the enumerators before it are accepted, and in each of the enum constant modes. The constant has the Go type of its enum when a typedef names the enum, and that type is int32, or uint32 for enums with the unsigned type tip.",
     ["inputs", "configurations"],
     "every enum declaration with values in the range of the generated type, every constant expression, every const mode and selection of enumerators",
     "the value of an enumerator depends on an arbitrary expression, on the enumerators before it and on the mode.",
     ["generator/gen_const.go", T],
     [("enumerators", "generator/gen_const.go: expandEnum, expandEnumAnonymous"), ("values and expressions", "translator/translator.go: ExpandDefines, EvalAndExpand; translator/ast_walker.go: enumerators")],
     ["constants of the generated package"],
     "property-based testing (rapid): enums whose values come from a reference evaluator of C expressions",
     "Values are read by go/types from const.go, or printed by a real cgo build in cgo mode. Enumerators outside the range of the generated type are out of scope.")

prop("C05", "Macro and const constants keep their C values or are left out",
     "An accepted object-like macro that C would replace by an integer, float, character or string constant expression becomes a Go constant of the same value, in each of the define constant modes, whatever the base, suffix, operators and parentheses of the text, and whatever other macros, enumerators and constants it refers to, with C's textual replacement. A macro that stands for anything else (nothing, a type, a statement, an attribute, a function call, something unknown) yields no constant and never breaks the generated package. A `const` declaration initialised with a literal or an integer constant expression becomes a Go constant of the declared type and the converted value.",
     ["inputs", "configurations"],
     "every macro of a header, any expression over literals, macros, enumerators; any declaration order; every const mode",
     "the value depends on textual macro replacement and on arbitrary expressions.",
     ["generator/gen_const.go", T, "translator/ast_walker.go"],
     [("macros", "generator/gen_const.go: writeDefinesGroup"), ("expansion", "translator/translator.go: ExpandDefines; translator/ast_walker.go: walkMacros"), ("literals", "translator/helpers.go: readNumeric")],
     ["constants of the generated package"],
     "property-based testing (rapid): macros whose values come from a reference evaluator of C replacement and expressions",
     "The evaluator was cross-checked with gcc (VERIF_GCC=1). Expressions mixing several suffixes and string concatenation or escapes are out of scope.")

prop("C06", "Generation is deterministic",
     "The same configuration and headers produce byte for byte the same package in every run and every process, whatever the machine's parallelism, the output directory, existing files there, debug or fancy output, or the order in which mappings are written in the configuration. The only exception is the time in the generation notice, and -nostamp removes it. A package is not affected by the other packages of the same command line.",
     ["schedules", "inputs", "configurations", "histories"],
     "every configuration and header, every schedule of the generator's goroutines, every iteration order of its maps, every way of starting the tool",
     "map iteration order and goroutine scheduling differ from run to run and only many runs over many tags, tips and macros show it.",
     ["process.go", "main.go", "generator/generator.go", "generator/gen_bindings.go", "generator/gen_files.go", T, "parser/parser.go"],
     [("helper collection and writing", "generator/gen_bindings.go: submitHelper; generator/generator.go: MonitorAndWriteHelpers"), ("ordering of tags", "generator/gen_declares.go"), ("rule and tip compilation", "translator/translator.go: New"), ("predefined macros", "parser/parser.go: New")],
     ["all files of the generated package"],
     "metamorphic property testing (rapid): generated packages of repeated and varied runs compared byte for byte",
     "Every case is generated four times in fresh processes. A rare schedule can still escape the number of runs.")

prop("C07", "Generated packages build with cgo and are gofmt-clean",
     "For headers and configurations of the supported subset, the generated package, together with the headers it includes, is accepted by the Go compiler and by cgo: declarations, conversions and helper files fit together and no name is declared twice. This holds for each combination of generator options, constant modes, pointer, type and memory tips and rules that gives different Go names to different C names. All generated Go files are in gofmt's format and belong to one package.",
     ["inputs", "configurations"],
     "every combination of supported declarations with the rule, tip, mode and option configurations",
     "unit tests never run the generator, and the failures come from combinations of declarations and settings.",
     ["generator/gen_bindings.go", "generator/gen_declares.go", "generator/gen_const.go", "generator/gen_callbacks.go", "generator/gen_struct_helpers.go", "generator/gen_files.go", "process.go"],
     [("conversions", "generator/gen_bindings.go: proxyArgFromGo, proxyArgToGo, proxyRetToGo"), ("helpers", "generator/gen_struct_helpers.go; generator/gen_callbacks.go"), ("files and formatting", "process.go: Generate, Flush")],
     ["go build of the generated package", "go/format of the generated files"],
     "property-based testing (rapid): generated headers and configurations, the result built by the real Go and C compilers",
     "The supported subset is spelled out in DESIGN.md.")

prop("C11", "Tips are looked up by scope, order, position and default",
     "The pointer, type or memory tip that applies to a position of a declaration comes from the first entry, in configuration order, whose target matches the C name, the entries of the declaration's own scope being asked before those of scope any, and within the matching entry from the tip at that position, or the entry's default where that position has no valid tip, or for results from the entry's self tip. Where no entry applies, the built-in default holds. Answers do not depend on what was looked up before.",
     ["configurations", "histories", "inputs"],
     "every list of overlapping tip entries in every scope, every name and position, every order of lookups",
     "the answer depends on the order of overlapping patterns and on a cache of earlier lookups.",
     [T],
     [("tip lookup", "translator/translator.go: PtrTipRx, TypeTipRx, MemTipRx, TipAt, Self"), ("tip cache", "translator/translator.go: ptrTipCache, typeTipCache, memTipCache")],
     ["translator.PtrTipRx", "translator.TypeTipRx", "translator.MemTipRx", "types in the generated files"],
     "model-based property testing (rapid) of lookup histories; effects read from generated packages",
     "A reference written from the documentation answers every lookup of every history.")

prop("C12", "Headers, defines and architecture are read as configured",
     "A relative source is the file of that name in the working directory, else in the first of IncludePaths, the pkg-config include directories of PkgConfigOpts and the configuration's own directory that has it; `#include \"x\"` is looked up beside the including file, then in the same list, and `#include <x>` in SysIncludePaths, with -ccincl putting the host preprocessor's directories before them; a source or header that is nowhere ends the run with an [ERR] message and no output. Sources are read in the configured order after the Defines, which are predefined with their exact values, win over the host's macros of -ccdefs, and are the only ones without it; an unusable host preprocessor only costs its contribution. Sizes are those of the configured Arch, or of the host.",
     ["inputs", "configurations"],
     "every placement of headers over the search directories, every list of sources, paths, Defines and host macros, every supported architecture",
     "which file and which macro is seen depends on the contents of all search directories and on their order.",
     ["parser/parser.go", "process.go"],
     [("sources and search paths", "parser/parser.go: ParseWith, checkConfig, findFile"), ("host preprocessor", "parser/parser.go: hostCppConfig"), ("pkg-config", "process.go: includePathsFromPkgConfig")],
     ["constants of the generated package", "exit status and messages"],
     "model-based property testing (rapid): generated directory trees with distinguishable copies of headers, read back from constants",
     "A reference of the search answers every include; a fake cpp stands for the host's. Directories that collide with the real host's system headers are not drawn.")

prop("C13", "Written files carry the configured texts, flags and includes",
     "A run writes only the package directory (PackageName below -out), all Go files in the package named by the last element of PackageName. Each file starts with the configured license and the standard generated-code notice, with the time of the run unless -nostamp is given, and doc.go, present when there is a license or description, alone carries the description as package documentation. Each cgo file's preamble consists of the pkg-config line, the flag groups with their traits, the system includes, the includes, stdlib.h and cgo_helpers.h, in that order; -maxmem (0x1fffffff to 0xffffffff, else 0x7fffffff) is the memory limit in the generated conversions, and -nocgo leaves out the functions and the preamble of constants and types.",
     ["configurations"],
     "every combination of package path, texts, flag groups, includes, switches and kinds of declarations",
     "the prologue differs by file and by setting, and other settings decide which files exist.",
     ["generator/gen_files.go", "process.go", "generator/generator.go", "main.go"],
     [("prologues", "generator/gen_files.go"), ("files", "process.go: Generate, Flush"), ("memory limit", "generator/generator.go: NewMemSpec")],
     ["files under the output directory"],
     "property-based testing (rapid): configurations of texts, flags and includes, compared with the files written",
     "Texts that cannot stand in a Go comment are not drawn. Files of earlier runs are not removed by the tool; that is not part of the property.")

prop("C14", "Every failure is reported and leaves earlier output alone",
     "A run ends either with status 0 and a complete package, or with a non-zero status and an [ERR] message that says what failed; it neither panics nor runs on. It fails for a configuration that is missing or is not valid YAML, lacks GENERATOR, PackageName or SourcesPaths, has an invalid pattern in rules, tips or validations, names an unknown ready-made rule, an unsupported Arch or a source file that is nowhere, for headers that the C front end rejects, and for an output directory that cannot be written. When a package fails, the packages configured before it are written in full, and what stood in the output directories of the failed and later packages is untouched; a configuration path that does not exist fails the run before anything is written. C declarations that a C compiler accepts never make it panic.",
     ["inputs", "configurations", "crash-points"],
     "every fault at every position among the configured packages, every mutation of a valid header or configuration, every well-formed header",
     "errors arise at every stage, each with a different part of the output already produced.",
     ["main.go", "process.go", "parser/parser.go", T],
     [("configuration errors", "process.go: NewProcess"), ("front end errors", "parser/parser.go: translate"), ("ordering of packages and flush", "main.go: main; process.go: Generate, Flush"), ("pattern errors", "translator/translator.go: New")],
     ["exit status and messages", "files under the output directory"],
     "fuzzing with fault injection (rapid): grammar-generated headers and configurations, mutated or given one of fifteen faults at a drawn position",
     "Output trees are compared before and after. A header that ends within a declaration makes the vendored C front end loop; that is a known finding and not drawn.")

prop("C15", "Validations guard exactly the functions they match",
     "A Go function whose C function name is matched by the pattern of an entry of Validations first calls the validatefunc of the first such entry, with the C name; if that returns a non-nil error the function returns the configured ret (nothing for void functions) without calling C. In every other case (a nil error, or no entry that matches) C is called exactly once and its result returned, as without validations.",
     ["inputs", "configurations", "histories"],
     "every list of overlapping validation entries, every function name and result type, and every outcome of the checks",
     "which check runs depends on the order of the patterns, and what is skipped can only be seen by running the function.",
     ["generator/gen_bindings.go", "generator/gen_declares.go", T],
     [("choice of the entry", "translator/translator.go: GetLibrarySymbolValidation"), ("generated check", "generator/gen_bindings.go: the validation at the head of function bodies; generator/gen_common.go: writeValidation")],
     ["calls recorded by checking functions and by the C library"],
     "property-based testing (rapid): generated packages built with recording checks and a counting C library, compared with a model of the entries",
     "The program that calls the package runs in the check's scratch directory. Result values that do not fit the function's type are not drawn.")

prop("C16", "Slices of structures have the lengths that LenFields points to",
     "After Deref of a structure that C filled, got by pointer or by value, passed to C or wrapped around C's memory, each pointer member that LenFields names as <structure>.<member>, the structure given by its typedef or, where it has none, by its tag, is a slice of as many elements as the length member named there holds now, of whatever integer type, and shows the elements C stores now; a NULL pointer is a nil slice. Several members may share a length. Slices that LenFields does not name keep the length that Go gave them and show C's elements; members taken as references are references to one element; entries for other names have no effect. This does not depend on StructAccessors or SafeStrings.",
     ["inputs", "configurations", "histories"],
     "every structure, LenFields map, length and history of C changing data and lengths between calls and Deref",
     "lengths are read at run time from memory that C changes.",
     [GB, "generator/gen_struct_helpers.go", T],
     [("configuration", "translator/translator.go: LenFields; generator/gen_struct_helpers.go: getDerefSource, getStructMembersHelpers")],
     ["length, elements and nil of members after Deref"],
     "stateful model-based property testing (rapid): generated packages linked with generated C code, members after each step compared with the values drawn",
     "Lengths up to 6; the data pointers are to numbers, the only element type the generator supports with LenFields.")

prop("C17", "Every declaration is documented with its C origin",
     "Each generated constant, type, union size, callback type and function is preceded by a comment that begins with its Go name and ends with its origin: by default the last directory and name of the header and the line on which C declares that name (of the keyword, for structs, unions and enums declared by tag only), for a name declared again the first time. A documentation rule (`doc`) replaces the default by its template, with $path, $file, $line, $name (of C) and $goname (global, then post-global rules) filled in: the first rule, in written order, whose pattern matches the C name, taken from the rules of the kind (const, for enums and enumerators too; type; function, for callback types too) or, if that kind has no documentation rules, from the global, else the post-global ones. No match, or an empty template, leaves the default. `doc.file` and `doc.google` are ready-made rules.",
     ["inputs", "configurations"],
     "every layout of declarations over lines, comments, continued lines and included headers, and every list of documentation rules over the scopes",
     "the line depends on how declarations are laid out, and the rule that applies on the contents of several rule lists.",
     ["translator/helpers.go", "generator/gen_const.go", "generator/gen_declares.go", "generator/gen_typedef.go", "translator/ast_walker.go"],
     [("source locations and templates", "translator/helpers.go: SrcLocation"), ("comments", "generator/gen_*.go: 'as declared in', 'as defined in', 'enumeration from'"), ("positions", "translator/ast_walker.go")],
     ["comments in the generated files"],
     "model-based property testing (rapid): headers laid out by a writer that records every name's line, comments compared with a model of the documentation rules",
     "Declarators that begin on another line than their name are not drawn.")

prop("C18", "Memory given to C is freed once, when nothing needs it, and never leaks",
     "Memory that the bindings allocate in C for a call (copies of strings, lists of strings, nested slices, lists of structures) stays as it is during the call and is freed exactly once, some time after it. The C copy of a structure passed by reference, with all that was allocated for its members, lives and stays at its address until Free, which frees it exactly once; Free again does nothing, and the structure can be used again. Free leaves alone what C owns: structures got from C or wrapped. A string that a callback returns is C's to free and is not freed by the bindings. So calls repeated with their structures freed do not grow C's heap.",
     ["inputs", "histories", "schedules"],
     "every signature, structure and history of calls, collections and Free, and every timing of the garbage collector and its finalizers",
     "leaks, double frees and early frees show only over many calls and under the collector's timing.",
     [GB, "generator/gen_struct_helpers.go", "generator/gen_callbacks.go"],
     [("allocation maps", "generator/gen_bindings.go: cgoAllocMap"), ("copies for a call", "generator/gen_bindings.go: getUnpackHelper, getUnpackStringHelper, getCopyBytesHelper"),
      ("copies of structures", "generator/gen_struct_helpers.go: getPassRefSource, getStructHelpers")],
     ["live, freed and wrongly freed blocks of C's heap", "what both sides see, call after call"],
     "stateful property testing (rapid): generated packages linked with generated C code and an instrumented heap (no reuse, poisoned frees, wrong frees fatal, live blocks counted) under collector stress, each step repeated and compared with its first run",
     "The leak of structures passed by value is a recorded finding; leaks below half a block per call are not seen.")

prop("C19", "Raw structures are C's own memory, and accessors refer to their members",
     "A structure with the memory tip raw is C's structure itself: New makes a zeroed one in C's memory, Free frees it, results of pointer type and New..Ref are C's own objects (NULL is nil), Ref and PassRef give the same address, and passing it by pointer, slice or reference gives C that memory, so what either side writes the other sees at once; by value it is copied with all its members, also within structures that are not raw. With StructAccessors each member has a Get function: numbers, enums, unions, untyped pointers and raw structures as pointers into the structure, pointers as references to the pointer, arrays as copies, other structures as wrappers of the member. This holds for structures with a typedef, a tag or both.",
     ["inputs", "configurations", "histories"],
     "every layout of raw structures, nested, linked and in arrays, and every history of reads and writes by both sides",
     "both languages share the memory, any offset, size or copy that is wrong for one layout corrupts it.",
     ["generator/gen_struct_helpers.go", GB, "generator/gen_typedef.go", "generator/generator.go"],
     [("raw structures and accessors", "generator/gen_struct_helpers.go: getRawStructHelpers"), ("which structures are raw", "generator/generator.go: MemTipOf; translator/translator.go: MemTipRx"), ("passing", "generator/gen_bindings.go: proxyArgFromGo, proxyRetToGo, proxyValueFromGo, proxyValueToGo")],
     ["members as read by Go and by C", "addresses of objects"],
     "stateful model-based property testing (rapid): generated packages linked with generated C code, histories of reads and writes on shared objects compared with a model of the memory",
     "Lists of lists of raw structures and callbacks with raw structures are not drawn, they do not compile.")

prop("C20", "Each package of a run is what a run for it alone makes",
     "Arguments are configuration files, or directories standing for the first regular file in them named c-for-go.yaml, c-for-go.yml, <name>.yaml or <name>.yml, <name> being the directory's own name however it is spelled (`.`, `../x`, `x/`, absolute). All arguments are resolved before anything is written; one that is not there, or a directory without such a file, fails the run with an [ERR] message. A run over several arguments writes, under -out, what runs for each of them alone and in that order would have written there, and nothing anywhere else.",
     ["configurations", "histories", "inputs"],
     "every list of packages with overlapping C names and every way to name their configurations from any working directory",
     "whatever one package leaves behind in the process would only show in the packages after it.",
     ["main.go", "process.go", "generator/generator.go", T],
     [("arguments and configuration files", "main.go: getConfigPaths, configFromDir"), ("state per package", "process.go: NewProcess")],
     ["files under the output directory", "exit status and messages"],
     "metamorphic property testing (rapid): one run over all packages against one run for each, configuration files against a model",
     "Packages that write into the same directory are included: later ones overwrite the files they share.")

prop("C08", "Calls reach C with the values passed and come back with C's results",
     "Calling a generated function calls the C function exactly once, with the C counterpart of every argument: numbers, enumerators and opaque or untyped pointers as they are, nil as NULL, strings as NUL-terminated copies, slices, arrays, matrices and pointers to numbers with the same elements, and structs, alone or in slices, as C structs with the same members; they stay valid until the call ends, however often the garbage collector runs. It returns the Go counterpart of C's result, NULL as nil, and what C wrote through pointers is seen in the arguments afterwards, in structs after Deref; strings passed are left as they were. This holds under every combination of pointer tips and generator options.",
     ["inputs", "configurations", "histories", "schedules"],
     "every signature over the supported parameter and result types, every pointer tip, every sequence of calls and argument values, and every timing of the garbage collector",
     "conversions only show when generated code runs against a C library, with the values and the collector's timing that expose them.",
     [GB, "generator/gen_common.go", "generator/gen_struct_helpers.go", T],
     [("argument conversion", "generator/gen_bindings.go: createProxies, proxyArgFromGo, proxyArgToGo"), ("results", "generator/gen_bindings.go: proxyRetToGo"), ("nested data", "generator/gen_bindings.go: getUnpackHelper, getPackHelper"), ("structs", "generator/gen_struct_helpers.go: PassRef, PassValue, Deref")],
     ["what the C function receives", "results and arguments after the call"],
     "round-trip property testing (rapid): generated packages linked with a C library that logs and rewrites what it gets, under collector stress",
     "The reference is the drawn value itself. Structs here have numeric members and arrays of them; nested ones are C09's.")

prop("C09", "Structures keep the same contents on both sides through their lifecycle",
     "PassRef of a Go structure makes a C structure with the C counterpart of every member: numbers, enumerators and opaque or untyped pointers as they are, arrays and nested structs and arrays of structs element by element, unions byte by byte, slices (and slices of slices) as pointers to copies of their elements, nil as NULL. It is made once: every further PassRef, and passing the structure to a function by pointer, gives C the same structure, so what C stored in it stays and later Go assignments are not transferred, until Free releases it together with all that was allocated for it, after which Ref is nil and the next PassRef makes a new one from the present contents. Deref sets every Go member from the C structure (a slice keeps its Go length and shows C's present elements; members that are structures follow after their own Deref). NewXRef wraps an existing C structure without copying it and gives nil for nil; passing by value (PassValue) gives C a copy of the same contents. The memory C has stays valid and unchanged, whatever the Go garbage collector does, until Free.",
     ["inputs", "configurations", "histories", "schedules"],
     "every structure over the supported member types, every pointer tip, every history of literals, calls by pointer and by value, assignments, Deref, wrapping, and Free, and every timing of the garbage collector",
     "a stale copy, a pointer into Go memory or a reference left after Free only shows in the later steps of a history, with a collection in between.",
     ["generator/gen_struct_helpers.go", GB, "translator/translator.go"],
     [("references, Free, Deref", "generator/gen_struct_helpers.go: getRefHelper, getFreeHelper, getNewRefHelper, getPassRefHelper, getDerefHelper, getPassValueHelper"), ("member conversion", "generator/gen_bindings.go: proxyValueFromGo, proxyValueToGo, getCopyBytesHelper, getUnpackHelper"), ("ownership of allocations", "generator/gen_bindings.go: cgoAllocMap")],
     ["the C structure as the C library logs it", "Go members after Deref", "Ref"],
     "stateful model-based testing (rapid): generated struct packages driven through drawn histories of their operations, C and Go contents compared with a model of both sides after each step, under collector stress and clobbered free memory",
     "Excluded: callback members (C10), Go views of C memory after Free, and the two known findings (pointers to nested structures after Free, pointer members of structures in slices), which are probed separately.")

prop("C10", "C reaches the Go functions given to it as callbacks",
     "A Go function passed for a parameter, or set in a member of a structure passed, of a callback type reaches C as a function pointer (nil as NULL), which stays valid after the call and works from any thread and while other callbacks run. Each call C makes through it calls, once, the Go function that serves the callback type, which is the first non-nil one passed for that type, with the Go counterpart of every argument: numbers, enumerators and opaque or untyped pointers as they are, const char * as a string, pointers and arrays as slices or references to C's memory (Go sets the length of slices; writes are seen by C; NULL is nil), structures by value or by reference with C's members after Deref. What the Go function returns is the result C gets: numbers, pointers, handles, structures by value or reference, nil as NULL, and strings as NUL-terminated copies that belong to C. Deref leaves callback members of a structure as they are.",
     ["inputs", "configurations", "histories", "schedules"],
     "every callback signature over the supported parameter and result types, every pointer tip, every history of passing functions and nil and of calls from C, nested, later and from other threads, and every timing of the garbage collector",
     "values cross the boundary in the other direction, at times and on threads the caller of the package does not choose.",
     ["generator/gen_callbacks.go", GB, "generator/gen_struct_helpers.go", "translator/ast_walker.go"],
     [("proxy functions", "generator/gen_callbacks.go: getCallbackHelpers"), ("arguments", "generator/gen_callbacks.go: createCallbackProxies, proxyCallbackArgToGo"), ("results", "generator/gen_bindings.go: proxyArgFromGo"), ("members", "generator/gen_struct_helpers.go; generator/gen_bindings.go: proxyValueFromGo, proxyValueToGo")],
     ["what the Go function receives", "what C gets back and finds in its memory"],
     "stateful round-trip property testing (rapid): generated packages linked with a C library that stores and calls what it is given, from several threads, both sides' logs compared with a model, under collector stress",
     "Slices of structures and lists of strings, whose length callbacks cannot tell, are not drawn: tips ref are.")
