prop("C08", "Route patterns of default operations match exactly the intended paths",
     "A pattern matches an operation's path exactly when its literal text equals the path, each variable stands for exactly one non-empty path segment, and '*' stands for any remainder; characters with a special meaning in regular expressions are literal text. A leading method name restricts the pattern to operations of that method, in any letter case. A pattern that cannot be understood is reported as an error, never ignored and never a crash, and matching one pattern never influences another, whether before, after or at the same time.",
     ["inputs", "schedules"], "all patterns, paths, histories of matches and schedules of concurrent ones",
     "The existing tests match three hand-picked patterns; quoting errors need metacharacters at particular positions.",
     ["internal/oapi/route"], [("pattern to regular expression", "route parsing"), ("matching", "Match")])
prop("C09", "Default operations fill only what is missing",
     "A default operation changes exactly the operations its pattern matches, adds to them the fields they lack and never overwrites or removes what the document states. Path-level fields, extensions and everything outside operations stay as they are. When several patterns match one operation all of them apply, with the same result for every map iteration order.",
     ["inputs"], "all documents, all sets of patterns, all map iteration orders",
     "The existing test applies one default to one path with plain operations; collisions of patterns, non-operation members and map orders are not sampled.",
     ["internal/oapi/oapi.go"], [("defaults", "SetPathsDefaults"), ("operation listing", "OperationsFromContainer")])
prop("C10", "The root document completes the scanned specification",
     "Merging the root document keeps every section of both: stated info fields of the root win, components of both are united and the same component stated twice is an error, and every other section is taken from the scanned specification when it has one and from the root otherwise, array valued sections included. The root document itself is never changed, and merging is repeatable.",
     ["inputs"], "all combinations of sections on both sides",
     "The existing test merges one root with two sections.",
     ["internal/oapi/oapi.go"], [("root merge", "MergeWithRoot")])
prop("C11", "Resolving replaces every pointer to Go code by its schema",
     "After resolving, no pointer to Go code is left: an exported one has become a local reference to its component and every other one the fully resolved content of its schema, where a pointer back to a schema being expanded becomes an empty object. Local references and everything else stay as they are, and the input document is not modified. A pointer that is unknown or malformed makes resolving fail; self-referring and mutually referring schemas never make it loop.",
     ["inputs"], "all schema graphs, all choices of exports, all documents",
     "The existing tests resolve one schema without cycles or exports.",
     ["internal/oapi/resolver/resolver.go", "internal/oapi/resolver/utils.go"], [("expansion", "resolver.iterator"), ("recursion", "path.has"), ("replacement", "ReplacePtr, UpdatePtrToLocal")])
prop("C12", "Exported components are complete and independent of order",
     "Every exported schema that is referred to, directly or from another schema, appears once among the components under exactly its export name, in place of what the document may state there, with the content it has when resolved on its own, wherever it is referred from; one that cannot be resolved is an error. The resolved document is the same for every order in which maps are visited. Resolving a resolved document again changes nothing.",
     ["inputs"], "all schema graphs, export sets and map iteration orders",
     "Content that depends on the first place of reference shows only with mutually referring exports under particular map orders, which Go randomises.",
     ["internal/oapi/resolver/resolver.go", "internal/oapi/resolver/utils.go"], [("component placement", "SetEntity, Entity.Path"), ("export lookup", "Exports.Get")])
prop("C16", "Field tags state constraints exactly",
     "Every option of a field's oapi tag sets exactly the constraint it names, to exactly the stated value, and leaves every other constraint alone; several options combine. The oapi name wins over the JSON one, options stated in either tag apply, and a field marked '-' is dropped. A number or truth value that cannot be read is an error, quotes around a value are not part of it, and no tag text makes parsing crash.",
     ["inputs"], "all tag texts and all combinations of options",
     "No test looks at tag parsing itself; three tags occur in type tests.",
     ["tag/tag.go"], [("tag parsing", "Parse, parseOAPITag, parseJSONTag"), ("values", "parseTagBool, parseTagIntPtr, parseTagFloatPtr, parseTagString")])
prop("C13", "A Go type's schema has exactly the shape of the type",
     "The schema of a struct has exactly one property per exported field, under the field's tag name or Go name, of the shape its type demands: basic types by kind and size, pointers, slices and maps nullable, arrays bounded, named and anonymous structs by reference to that very type, even among types of equal structure. Embedded or inlined structs contribute their fields, and a field of an outer struct hides an embedded one of the same name. Recursive types give a finite schema, and a type without a JSON schema (interfaces, channels, functions, complex numbers) is an error, never a crash.",
     ["inputs"], "all type structures",
     "The existing tests convert twenty types one level deep.",
     ["internal/oapi/scan/types/types.go", "internal/oapi/scan/types/point.go"], [("type conversion", "type2schema, struct2schema, basic2schema"), ("embedding", "collectStructFields, castInlineStruct"), ("references", "reference2schema, pointmap.pick")])
prop("C14", "Constraints stated on a field reach its schema",
     "Every constraint in a field's tag that its type can carry appears in the field's schema with exactly the stated value, and nothing else changes; the type option replaces the type of the field and the format option its format. A field marked required is listed as required whatever its type, and nullability follows the tag, also for references. A tag that cannot be read or names an unknown type is an error.",
     ["inputs"], "all field types and combinations of options",
     "The existing tests use one option, type:number, on one field.",
     ["internal/oapi/scan/types/types.go", "tag/tag.go"], [("constraints", "basic2schema, slice2schema, map2schema, array2schema"), ("field attributes", "struct2schema"), ("override", "basicString2schema")])
prop("C15", "Scanned types resolve completely and regardless of order",
     "After scanning, a pointer to a type or to a place inside it (field, element, pointer target) gives the schema of exactly that place, and every reference inside such a schema resolves in turn, across packages, however entangled the types are. A pointer to anything that does not exist, or to a type with parameters, which has no schema of its own unlike its instances, is an error, never a crash or an empty schema. The order in which packages and pointers are visited, and pointers of other kinds in the list, do not matter.",
     ["inputs"], "all type graphs, pointer lists and visiting orders",
     "The existing tests collect one type at a time and look up pointers that exist.",
     ["internal/oapi/scan/types/scan.go", "internal/oapi/scan/types/types.go"], [("collection", "Scanner.Scan, walk"), ("lookup", "Scanner.Resolve, pointmap.findType")])
prop("C22", "OpenAPI documents survive decoding and encoding",
     "Decoding a valid OpenAPI 3.0 document, or any object that is part of one, and encoding it again gives the same document: no standard field is lost, changed or invented, whatever values it has and wherever it stands. References, free-form values, empty security lists and boolean schemas keep their meaning.",
     ["inputs"], "all objects of OpenAPI 3.0, all combinations of their fields and values",
     "The existing tests encode a few hand-written objects; a field dropped or invented shows only when that very field is stated or absent.",
     ["internal/oapi/spec"], [("object types", "the struct types and their MarshalJSON/UnmarshalJSON"), ("encoding of variants", "SecurityRequirement, Callback, Link, OneOf")])
prop("C17", "Schema commands export exactly the types they name",
     "A line comment that starts with the schema command marker and names a type, optionally preceded by an export name, exports exactly that type of its package, under the given name or else the type's own. Wherever in whatever file of a scanned package it stands, each command counts once, and other comments never do. A malformed command, an unreadable pointer, and two exports of one type or under one name are errors, whatever order packages are visited in.",
     ["inputs"], "all placements and texts of comments in all packages",
     "The existing tests read one command; collisions of two commands, full pointers and malformed ones are not sampled.",
     ["internal/oapi/scan/cmds"], [("comment collection", "Scanner.Scan"), ("command parsing", "Parse, NewCmdSchema"), ("exports", "ExportedComponents")])
prop("C18", "The specification is the union of the files of all packages",
     "Every file named oapi.yaml, oapi.yml or oapi.json in the directory of a scanned package, whatever that is called and wherever it is, that states an OpenAPI version contributes all of its content, and no other file does. Its pointers to Go code, those without package referring to the file's own package, are collected wherever they stand, while everything else stays as it is; files or references that cannot be read are errors. Files may repeat each other but contradicting ones are an error, whatever order packages are visited in.",
     ["inputs"], "all contents, places and combinations of specification files",
     "No test reads specification files; the example has one file with one pointer.",
     ["internal/oapi/scan/specs", "internal/pkgutil/info.go", "internal/container"], [("file collection", "specs.Scanner.Scan, ReadDir"), ("merging", "specs.Scanner.Merge, Containers.Merge"), ("package directories", "GetPkgPath")])
prop("C19", "Every package of the program is scanned exactly once",
     "Each package that is reachable through imports from the packages asked for, and is not part of the standard library, is scanned exactly once, after the packages it imports; no other package is. An error found while loading or scanning any of them makes the scan fail with a message that reports every such error, and there is no error otherwise. Imports that could not be loaded and the order of maps make no difference.",
     ["inputs"], "all import graphs and placements of errors",
     "No test visits more than one package; shared imports and errors deep in the graph need particular graphs.",
     ["internal/pkgutil"], [("visit", "Scan"), ("standard library", "IsStdLibPkg"), ("errors", "newSingleError")])
prop("C20", "A configuration completes itself from the one it extends",
     "A configuration file states the same whether it is JSON or YAML. When it extends another file, which is found relative to its own directory or by an absolute path, its own values win and everything it does not state, within sections too, comes from that file. A file that is missing, cannot be read or holds values of the wrong kind, itself or the one it extends, is an error.",
     ["inputs"], "all contents of both files and all places of them",
     "No test reads a configuration; precedence depends on which of the two files state which fields.",
     ["internal/oapi/config", "internal/container"], [("reading", "ReadFile, ReadYAML, ReadJSON"), ("extending", "extends")])
prop("C26", "Log levels and messages arrive as stated",
     "A text selects a log level exactly when it is the name of one, in any letter case, and then exactly that one; any other text is an error. A message reaches the logger once, with the level, text and arguments it was logged with, and a logger that was not set accepts all messages silently.",
     ["inputs"], "all texts and messages",
     "No test covers logging.",
     ["internal/logging"], [("levels", "ParseLevel"), ("messages", "Log, Fatal, Warn, Info, Debug, Void")])
prop("C21", "The tool scans what it is told and writes where it is told",
     "Every setting of the command line tool comes from its flag, else from the configuration file, else from its default: the working directory, pretty JSON, standard output. Paths given by flags are relative to the working directory, the directory a configuration states to the configuration file, and its output to the scanned directory. The tool writes exactly the document of exactly that program, in that format, to exactly that place and nowhere else.",
     ["inputs"], "all combinations of flags, configurations and paths",
     "No test runs the tool; which setting wins depends on which of flag and configuration are stated.",
     ["cmd/oapi"], [("flags", "getConfig"), ("precedence and paths", "Config.full, toAbsPath, toOutput"), ("run", "main, scan")])
prop("C25", "The tool succeeds completely or fails without a trace",
     "When anything is wrong with the arguments, the configuration, the program, its specification files or the place of the output, which might not take the whole document, or the tool is interrupted, it exits with a code other than zero, tells why on standard error, writes nothing to standard output and leaves an existing output file as it was. Otherwise it exits with zero and the output is exactly the formatted document, replacing whatever a file held before, and nothing else is written anywhere. An existing output file holds at every moment either what it held before or the whole document.",
     ["inputs", "fault_sequences", "schedules", "crash_points"], "all reasons to fail, amounts of room, moments of an interrupt, kinds of output, previous contents and log levels",
     "No test runs the tool; an error that is logged but not acted upon shows only with that very error.",
     ["cmd/oapi"], [("failures", "fatal, main"), ("output", "main")])
prop("C24", "Scanning a program gives its complete, resolved document or an error",
     "Scanning gives exactly the union of the specifications of all packages of the program, completed by default operations and the root document, where every pointer to Go code, in any of these and in overrides, is replaced by the schema of the place in the program it names, and exported types that are referred to stand among the components. An override replaces the schema of exactly the type or place it names, and scans never influence each other. If the program does not compile, a pointer names nothing, specifications contradict each other, a command is malformed or the context is over, the result is an error and no document.",
     ["inputs", "programs", "schedules"], "all programs, specifications, options, map iteration orders and scans before or at the same time",
     "No test scans a program; faults between the phases (a pointer nobody collects, an override that does not reach a field) need several packages and options together.",
     ["oapi.go", "internal/oapi"], [("phases", "Scan"), ("options", "WithOverride, WithDefOps, WithRootSchema"), ("loading", "pkgutil.Scan")])
