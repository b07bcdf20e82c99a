#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T_NONE = "The repository's tests run the generator once on one sample schema and compare nothing; "

p("C01", "Lexing any text is total, lossless and reports every illegal byte",
  "For every byte sequence the scanner terminates with exactly one end-of-file token, tokens appear in source order without overlapping, each token's text is the source text at its reported position (carriage returns aside), the kinds are those the language defines (longest match, keywords, automatic line ends), and only blanks and comments lie between tokens. A source with no illegal construct yields no error; one with an unterminated string or comment, a NUL, a misplaced byte-order mark, broken UTF-8 or a character outside the language yields at least one error whose position lies inside the source.",
  ["inputs"], "every byte string, with and without comment scanning", "no test scans anything but one example; the property is over all byte strings",
  ["pkg/scanner/scanner.go", "pkg/token/token.go", "pkg/scanner/errors.go"],
  [("Scanner.Scan and its insertSemi state", "pkg/scanner/scanner.go"), ("Lookup of keywords", "pkg/token/token.go")],
  ["token stream returned by the scanner", "error handler calls"])
p("C02", "Every reported position resolves to the true file, line and column",
  "For every source text and every offset in it, the position resolved for that offset (line directives aside) has the file's name, the 1-based line (number of preceding line feeds plus one) and the 1-based byte column of that offset, also when many files share one position table, and offset/position conversion are inverse. Line tables reject non-monotonic input, merging a line makes later lines move up by one, and a line directive moves the reported places after it in its file, up to the next, and no other.",
  ["inputs", "histories"], "every text, every offset, every order and number of files added to a table", "no test exercises the position table at all",
  ["pkg/token/position.go", "pkg/scanner/scanner.go"], [("File.AddLine/SetLines/MergeLine/SetLinesForContent, searchInts", "pkg/token/position.go")],
  ["FileSet.Position, File.Line, File.Offset, File.Pos"])
p("C03", "Position tables can be shared by concurrent users",
  "A position table may be used by any number of goroutines at once, some adding files and lines while others resolve positions: there is no data race, files never overlap in the position space, and every resolved position of a completed file equals the one a sequential run gives.",
  ["schedules", "histories"], "every interleaving of file registration, line registration and look-ups", "no test uses more than one goroutine",
  ["pkg/token/position.go"], [("FileSet.mutex, File.mutex, FileSet.last cache", "pkg/token/position.go")], ["race detector", "FileSet.File/Position results"])
p("C04", "Parsing any text ends in a tree or in located errors, never in a crash",
  "For every byte sequence given as a schema file the parser returns (it neither panics nor runs on forever) and writes nothing to standard output or standard error. It returns either no error and a complete tree, or an error list that is sorted, non-empty and whose every entry names the file and a line and column inside it; a text that is not in the grammar always gives an error.",
  ["inputs"], "every byte string, in particular truncations and token-level edits of valid schemas", "the only parser test is an example that does not run to completion on malformed text",
  ["pkg/parser/parser.go", "pkg/parser/interface.go", "pkg/scanner/errors.go"], [("parser.errorExpected/sync/bailout", "pkg/parser/parser.go")], ["return values of ParseFile", "process output", "panics"])
p("C05", "The parse tree says exactly what the schema says",
  "For every well-formed schema, laid out in any legal way (blanks, comments, blank lines, line ends, CRLF, separators), the tree holds exactly the declared packages, imports, enums, data types and servers, in source order, each with its name, documentation, tags (keys and all values), inheritance list, members with type, array/map shape, map key type, nullability at every level and id. Layout never changes the tree.",
  ["inputs"], "every well-formed schema and every layout of it", "no test looks at a tree",
  ["pkg/parser/parser.go", "pkg/ast/ast.go"], [("parseDataSpec, parseEnumSpec, parseServerSpec, parseTag", "pkg/parser/parser.go")], ["ast.File returned by the parser"])
p("C06", "Every valid schema is accepted for every target",
  "For every valid schema set (any number of files with relative imports, any types, inheritance, nullability, tags, documentation comments) and every target language, the command exits with status 0, prints no error, and writes the output files for every file that the input pattern selects and every file these import.",
  ["inputs", "configurations"], "every valid schema set, all four targets", T_NONE + "validity is over all schemas",
  ["cmd/main.go", "pkg/build/*.go", "pkg/golang/*.go", "pkg/typescript/*.go", "pkg/dart/*.go", "pkg/java/*.go"], [("Builder.checkFiles and the four Build functions", "pkg/build/build.go")], ["exit status, output, output tree of the hbuf command"])
p("C07", "Every invalid schema is rejected with a located diagnostic and no output",
  "A schema set with a defect (duplicate type, member, enum item or id, unknown or illegal type, illegal map key or method type, cyclic or unknown inheritance, repeated tag or tag key, reserved name, malformed or unknown verify format or one whose bounds or expression do not suit the member's type, a method bound to an unknown or unsuitable method, a db tag naming an unknown table or field, missing or unreadable import, syntax error) makes the command exit with a non-zero status, print a diagnostic that names the offending file and line, and leave no generated file behind; this is so for every place the defect can occur in.",
  ["inputs"], "every defect class at every site of every schema", "no test feeds an invalid schema",
  ["pkg/build/build.go", "pkg/build/data.go", "pkg/build/enum.go", "pkg/build/server.go", "cmd/main.go", "pkg/parser/interface.go"], [("checkData/checkEnum/checkServer/checkTags", "pkg/build")], ["exit status, output, output tree of the hbuf command"])
p("C08", "Generation is deterministic",
  "Running the command twice on the same inputs with the same options gives byte-identical output trees and the same diagnostics, whatever the directory the schemas live in, whatever was in the output directory's same-named files before, and for every target.",
  ["inputs", "histories"], "every schema set, repeated runs (map iteration order differs from run to run)", T_NONE + "one run cannot show nondeterminism",
  ["pkg/build/*.go", "pkg/golang/gloang.go", "pkg/typescript/typescript.go", "pkg/dart/dart.go", "pkg/java/java.go"], [("sorted import and language lists", "writerFile in each target")], ["output tree bytes"])
p("C09", "Input patterns and imports select exactly the named files",
  "The command compiles exactly the schema files in the input pattern's directory or below whose name matches its last part ('*' stands for any text, every other character for itself, the whole name must match) plus the transitive closure of their imports, resolved relative to the importing file. How the path is spelled, the current directory, and unrelated files next to the schemas make no difference to the output. No selected file's output is lost: when the outputs of two would bear the same name, the command says so and writes nothing.",
  ["inputs", "configurations"], "every directory layout, pattern, path spelling and working directory", T_NONE + "it uses one absolute path",
  ["pkg/build/build.go", "pkg/parser/interface.go"], [("Build's pattern and ParseDir/parseDirFile", "pkg/build/build.go, pkg/parser/interface.go")], ["output tree of the hbuf command"])
p("C10", "The compiler only writes below its output directory",
  "A run, successful or not, creates or changes files only below the given output directory and only files that belong to the compiled schemas; the schemas themselves, other files in the output directory and everything else in the file system keep their content and metadata. A run without a usable input, output directory and known target fails and writes nothing.",
  ["inputs", "fault_sequences"], "every schema set and option, including runs that fail", "no test compares the file system before and after",
  ["pkg/build/build.go", "pkg/golang/gloang.go", "pkg/typescript/typescript.go", "pkg/dart/dart.go", "pkg/java/java.go"], [("writerFile", "each target")], ["file system snapshots around the command", "system call trace"])
p("C11", "Generated Go always compiles",
  "For every valid schema set whose names are legal and distinct in Go, the Go output is a set of packages that the Go compiler accepts against the runtime library (no unused or missing import, no duplicate or undefined identifier), also across files, packages and inherited types, with database, cache, verify and rpc tags present or absent in any combination.",
  ["inputs"], "every valid schema set", "tests write the Go output but never compile it",
  ["pkg/golang/*.go"], [("Writer.Import bookkeeping, getPackage", "pkg/golang/gloang.go")], ["go build over the generated tree"])
p("C12", "Go JSON follows the wire format and round-trips losslessly",
  "For every data type and every value, the JSON a generated Go type produces has one key per non-null member, in snake case of the declared name, including inherited members, with 64-bit integers and decimals as strings, dates as milliseconds and enums as numbers; null members are left out, and a member at its type's default (zero, empty text, empty list or map) may be left out. Decoding it yields an equal value (an empty list or map and a null one count as equal), an unknown key is ignored and a missing key leaves the Go zero value.",
  ["inputs"], "every data type (all member types, containers, nullability, inheritance) and every value", T_NONE + "no generated type is ever instantiated",
  ["pkg/golang/data.go", "pkg/build/build.go"], [("printDataCode json tags, printType", "pkg/golang/data.go")], ["ToData and FormData of generated types"])
p("C13", "Generated Go accessors read and write exactly their member",
  "For every member of every generated Go type, setting it through its setter and reading it through its getter returns the value set, leaves every other member untouched, and a getter on a null member returns the type's default without failing.",
  ["inputs", "histories"], "every data type, member, value and order of accesses", T_NONE + "no accessor is called",
  ["pkg/golang/data.go"], [("getter/setter emission, printDefault", "pkg/golang/data.go")], ["Get/Set methods and fields of generated types"])
p("C14", "Enum names and numbers correspond one to one in every language",
  "For every enum, each target's generated constants carry exactly the declared ids under exactly the declared names, and the look-ups from value to name and from name to value are inverse, complete and contain nothing else; a value outside the enum has no name.",
  ["inputs"], "every enum", T_NONE + "no enum is looked up",
  ["pkg/golang/enum.go", "pkg/typescript/enum.go", "pkg/dart/enum.go", "pkg/java/enum.go"], [("printEnumCode", "each target")], ["generated enum tables, executed"])
p("C15", "A Go RPC call reaches the method it names with its argument and result intact",
  "For every server, each call through the generated client arrives, through the generated router, at exactly the implementation method of that name, once, with an equal argument, and its result (or error, or nothing for void) comes back unchanged; the context of the caller reaches the transport, and that of the transport the implementation, with its values and its cancellation; this includes methods inherited from base servers in the same or another file. The per-method tag data declared in the schema is published exactly as declared, and an unimplemented method answers with an error, unless it is bound to a method of another server: then it hands on its argument (after verifying it) and answers with that method's result or error.",
  ["inputs", "histories"], "every server shape, call, argument and call sequence", T_NONE + "no generated client or router runs",
  ["pkg/golang/server.go"], [("printClient, printServerRouter, printServer default", "pkg/golang/server.go")], ["recorded calls at client, transport and implementation"])
p("C16", "All languages agree on the RPC routes",
  "For every server, own or inherited method included, the route under which the generated client of any language sends a call is a route that the generated router of every language with a router answers, and it reaches the method of that name; the set of routes is the same for all languages.",
  ["inputs"], "every server shape", "no test compares two targets",
  ["pkg/golang/server.go", "pkg/typescript/server.go", "pkg/dart/server.go", "pkg/java/server.go"], [("route strings built from underline names", "each target's server.go")], ["routes sent and registered by generated code"])
p("C17", "User data never becomes SQL text and placeholders always match arguments",
  "For every database-tagged data type and every member value, each statement the generated Go code sends has as many placeholders as arguments, its text depends only on the schema and on which members are null (or on container lengths and the ASC/DESC choice), never on member contents, and it is accepted by an SQL engine holding the table. A soft-delete table's statements never run without the where clauses their non-null conditions ask for.",
  ["inputs"], "every database-tagged schema and hostile value", "no generated SQL is ever built in a test",
  ["pkg/golang/database.go", "pkg/build/database.go"], [("printParam, getParamWhere, printSet", "pkg/golang/database.go")], ["statements and arguments arriving at the database driver"])
p("C18", "Generated CRUD functions do to the table what their names say",
  "Against a real table, Insert stores every member of one row (null members as NULL), Inserts stores every given row the same way, Update changes only the non-null members (or forced ones) of exactly the addressed row (and nothing when there is none to change), Set writes null members too, Del only marks the addressed row deleted (or deletes it when soft deletion is off), Remove deletes exactly the addressed row, and Get returns the addressed live row; operations with conditions act on exactly the rows the conditions select. Each returns the number of rows affected. All other rows and columns keep their contents.",
  ["inputs", "histories"], "every table shape and every sequence of operations", "no generated CRUD function ever runs in a test",
  ["pkg/golang/database.go"], [("print*Data functions", "pkg/golang/database.go")], ["table contents before and after every operation"])
p("C19", "Generated queries return exactly the rows that their conditions select",
  "For every request type, List, Map, Count and Get return exactly the live rows that satisfy every condition whose member is non-null (absent members impose none), with values intact, in the requested order, limited to the requested window, grouped as declared; Count of an ungrouped request equals the number of rows List would return without a window, and Map holds the same rows keyed by the named member. A read that would have to return a row whose stored value its member cannot hold reports an error instead of leaving the row out or altering it.",
  ["inputs"], "every combination of condition members, values and table contents", "no generated query ever runs in a test",
  ["pkg/golang/database.go", "pkg/build/database.go"], [("getParamWhere", "pkg/golang/database.go")], ["rows returned, against a reference evaluation"])
p("C20", "Cached queries never serve data older than the last write",
  "When every data type of a table is cached, any sequence of generated reads and writes on that table, one at a time, gives the same results as with the cache switched off: every write invalidates before it returns, every lock taken on the cache is released, entries live for a time within the declared bounds, and a read after a write sees it.",
  ["histories", "fault_sequences"], "every interleaved sequence of reads and writes, with cache misses and failing caches", "nothing generated runs in a test",
  ["pkg/golang/database.go"], [("cache.DbGet/DbSet/DbDel/DbUnlock emission", "pkg/golang/database.go")], ["cache event trace", "results with and without cache"])
p("C21", "Generated Go verification accepts exactly the values its formats allow",
  "For every member with verification formats, the generated check passes iff the value satisfies every format in order (null rule, minimum, maximum, regular expression, enum membership), otherwise it fails with the code and name of the first format violated; the whole-value check fails iff some member's check fails, with the error of the first one, inherited members before own ones. The first format of a nullable member decides about null (for text, also about empty text); the length of a text is in characters.",
  ["inputs"], "every member type, format and value around its bounds", "nothing generated runs in a test",
  ["pkg/golang/verify.go", "pkg/build/verify.go", "pkg/build/format.go"], [("printVerifyFieldCode, printVerifyDataCode", "pkg/golang/verify.go")], ["results of generated Verify functions"])
p("C22", "Generated TypeScript always compiles",
  "For every valid schema set whose names are legal and distinct in TypeScript, the TypeScript output type-checks under the strict compiler against the runtime library: every import resolves, no identifier is undefined or declared twice, all inherited types fit.",
  ["inputs"], "every valid schema set", "tests write the TypeScript output but never compile it",
  ["pkg/typescript/*.go"], [("printDataCode, getPackage", "pkg/typescript")], ["tsc over the generated tree"])
p("C23", "TypeScript JSON is interchangeable with Go's",
  "For every data type and value, the JSON object a generated TypeScript class writes is the wire form (the same that Go writes, null members aside), reading it back gives an equal value, and each language reads what the other wrote without loss, over the full range of every member type.",
  ["inputs"], "every data type and value, both directions", "no generated class is ever instantiated",
  ["pkg/typescript/data.go", "pkg/golang/data.go"], [("printFromJson/printToJson", "pkg/typescript/data.go")], ["fromJson/toJson of generated classes run in node, against Go's output"])
p("C24", "Cloning a TypeScript value copies it completely and shares nothing mutable",
  "For every data type and value, a clone equals its original in every member, inherited ones included, and changing any nested data object, array or map of one never changes the other.",
  ["inputs", "histories"], "every data type, value and mutation", "nothing generated runs in a test",
  ["pkg/typescript/data.go"], [("clone emission", "pkg/typescript/data.go")], ["clone and subsequent mutation in node"])
p("C25", "TypeScript and Dart verification agree with the declared formats",
  "For every member with verification formats and every value, the generated TypeScript check and the generated Dart check of the value's text report an error iff the value breaks one of the formats (null rule, bounds, length, regular expression), reporting the first one broken, and so agree with the Go check; a text that stands for no value of the member's type breaks the first format.",
  ["inputs"], "every member type, format and value around its bounds", "nothing generated runs in a test",
  ["pkg/typescript/verify.go", "pkg/dart/verify.go"], [("printVerifyFieldCode", "pkg/typescript/verify.go, pkg/dart/verify.go")], ["results of generated verify functions"])
p("C26", "Derived names are total, stable and faithful",
  "Turning any identifier into its exported, first-lower, snake or constant form never fails and keeps every letter and digit in order; the exported, first-lower and snake forms are idempotent, and the snake and constant forms split words exactly at (single, inner) underscores and capital letters. So the spellings of the same words (userName, UserName, user_name) give the same name in every language.",
  ["inputs"], "every identifier, Unicode included", "one test converts one name",
  ["pkg/build/build.go"], [("StringToHumpName, StringToFirstLower, StringToUnderlineName, StringToAllUpper", "pkg/build/build.go")], ["results of the naming functions"])
p("C27", "Inheritance gives a type exactly its own and its ancestors' members, once each",
  "For every data type, in every language, the generated type exposes each own or inherited member exactly once with its declared type, a member redeclared by a child counts once, and a value of the child can be used where the parent is expected. The same holds for servers and methods.",
  ["inputs"], "every inheritance graph without cycles, across files", "the sample has one two-level inheritance and nothing checks it",
  ["pkg/build/build.go", "pkg/golang/data.go", "pkg/typescript/data.go", "pkg/dart/data.go", "pkg/java/data.go"], [("EnumField, EnumMethod, CheckSuperField", "pkg/build/build.go")], ["member inventories of running generated code, values read and written through ancestors"])
p("C28", "Generated Java always compiles and mirrors the schema",
  "For every valid schema set whose names are legal and distinct in Java, the Java output compiles against the runtime library, and every data type, enum and server is present with one accessor pair per member and one method per declared method, own or inherited; what is set through a setter is what the getter returns, and a copy equals its original in every member and shares no date, list, map or nested value with it.",
  ["inputs"], "every valid schema set", "tests write the Java output but never compile it",
  ["pkg/java/*.go"], [("print*Code", "pkg/java")], ["javac over the generated tree, reflection"])
p("C29", "Generated Dart is well formed and behaves as the schema says",
  "For every valid schema set whose names are legal and distinct in Dart, the Dart output is well formed: it parses, every name it uses is declared or imported, and nothing that may be null is used where there is no null. Run, every data type has exactly the properties of its own and inherited members with their types; an object made from values holds them; written as JSON it has the form the other languages use, and reading that gives an equal object; members missing from the JSON read as defaults; a copy equals its original and shares nothing that can change; and every server has an interface, a client and a router with exactly its own and inherited methods.",
  ["inputs"], "every valid schema set and value", "tests write the Dart output but never look at it",
  ["pkg/dart/*.go"], [("print*Code", "pkg/dart")], ["the generated Dart, parsed, resolved and executed"])
p("C30", "Translation tables cover every declared text in every declared language",
  "For every type with texts, the tables generated for TypeScript and Dart give for each of its items or members, in each declared language, exactly the declared text, and the text derived from the name where none is declared; every language has the same keys, one for each item or member and no others, and every key that the generated code looks up is there.",
  ["inputs"], "every set of translation tags", "nothing generated runs in a test",
  ["pkg/build/language.go", "pkg/typescript/language.go", "pkg/dart/language.go"], [("Language.Add, GetLang, printLanguge", "pkg/build/language.go")], ["generated language tables in node, and executed in Dart"])
p("C31", "Calls between languages deliver arguments and results unchanged",
  "For every server method, own or inherited, the request that the generated client of any language writes, given to the generated router of every language that has one, runs exactly the method of that name of that server, once, with an equal argument and the context of the call; and the reply any router writes for a result is read by the client of every language as an equal result.",
  ["inputs", "configurations"], "every server, method, argument, result and pair of languages", "no generated client or router runs in a test, let alone in two languages",
  ["pkg/golang/server.go", "pkg/typescript/server.go", "pkg/dart/server.go", "pkg/golang/data.go", "pkg/typescript/data.go", "pkg/dart/data.go"], [("printClient, printServerImp, printServerRouter", "pkg/*/server.go")], ["request and reply texts at the transport, calls of implementations"])
p("C32", "Generated forms and tables show and edit exactly the marked members",
  "For every valid schema set with ui tags and every value, the generated TypeScript and Dart form and table hold exactly one input or column for each marked member, under its translated label. Inputs start with, and cells show, the member's value: numbers with the declared digits, dates in the declared format, enum values by their text, null as nothing. What is entered is stored in that member alone, as the value it stands for; nothing entered is null where null is allowed. Read-only inputs, and only those, are read-only; members with formats carry their check; the inputs of enums offer exactly the values; hidden inputs are left out, and positions and slots are followed; the boxes that choose rows of a Dart table follow the chosen set.",
  ["inputs", "histories"], "every ui tag, member type, value and entry", "nothing generated runs in a test, and no form or table is looked at",
  ["pkg/typescript/ui.go", "pkg/dart/ui.go"], [("printForm, printTable, printToString, printFormString", "pkg/typescript/ui.go, pkg/dart/ui.go")], ["components drawn with stand-in widgets, their contents, entries stored"])
p("C33", "Generated Go code can be used from many goroutines at once",
  "Generated Go code has no data races of its own: calls through one shared client and one shared router, encoding, decoding, enum look-ups, verification and database functions on separate values, and getters, encoding, verification and queries on one value that all read, may run side by side in any number of goroutines. Each call reaches its method once with its own argument, and its own tags, result or error comes back; every other operation gives exactly what it gives alone, and the functions that only read leave the value they read as it was.",
  ["schedules", "inputs"], "every interleaving of every set of operations", "nothing generated runs in a test, let alone twice at once",
  ["pkg/golang/server.go", "pkg/golang/data.go", "pkg/golang/enum.go", "pkg/golang/verify.go", "pkg/golang/database.go"], [("printServerRouter, printClient, printEnumCode, printVerifyData, printDatabaseCode", "pkg/golang")], ["memory accesses of the generated code under the race detector, outcomes of operations run side by side"])

p("C34", "A generated file depends only on its source file and what that file imports",
  "The output generated for a source file is a function of that file and the files it imports, directly or through others: compiling it alone or along with any other files, whose types may bear the same names, gives the same bytes; so does adding declarations nobody refers to in an imported file, or importing a file without using it. In the other direction, a set of files that know nothing of each other gives, compiled together, exactly the files each gives alone.",
  ["inputs", "configurations"], "every pair of file sets, every target and every selection of input files", "the tests compile one fixed set of files and compare nothing",
  ["build/build.go", "pkg/golang/gloang.go", "pkg/typescript/typescript.go", "pkg/java/java.go", "pkg/dart/dart.go"], [("Build, the per-target Build functions", "build/build.go")], ["generated files, byte for byte, over different selections of inputs"])

p("C35", "Both ends of a call may run different versions of a growing schema",
  "When a schema is extended by members, bases, enum items, methods, servers, declarations, files or tags, or its declarations, members, items and methods change places, code generated from the old version and code generated from the new one still understand each other, in both directions and between Go, TypeScript and Dart: a call of a method both know reaches that method, every member both know arrives with its value in the request and in the reply, members the reader does not know are ignored, and nullable members the writer does not know are null.",
  ["inputs", "configurations"], "every schema, every extension of it, every value and every pair of languages and versions", "no generated code runs in a test, let alone two versions of it",
  ["pkg/golang/data.go", "pkg/golang/server.go", "pkg/typescript/data.go", "pkg/typescript/server.go", "pkg/dart/data.go", "pkg/dart/server.go"], [("JSON members by name, routes by server and method name", "pkg/*/data.go, pkg/*/server.go")], ["requests and replies on the wire between clients and routers of two versions"])

p("C36", "Compiling takes time, memory and output in proportion to the source",
  "For every set of source files, valid or not and of whatever shape (inheritance, members or imports that fan out and meet again, long chains and cycles, very many declarations, members, items, methods, tags, formats or columns, very long texts and names), hbuf finishes, with status 0 or a diagnostic, in time and memory that grow polynomially and gently with the size of the sources: no shape makes it run, or write, exponentially long.",
  ["inputs", "configurations"], "every shape and size of source set and every target", "the tests compile one small set of files without limits",
  ["pkg/build/build.go", "pkg/parser/interface.go", "pkg/golang/data.go", "pkg/scanner/scanner.go"], [("enumField, enumMethod, inherits, parseDirFile", "pkg/build/build.go, pkg/parser/interface.go")], ["processor time, resident memory, exit status and output size of the command"])

p("C37", "A run that reports success has read and written everything",
  "Whatever goes wrong during a run - a directory, schema or output file that cannot be listed, read, created, written in full or closed, at whatever point - the command does not report success unless every output file is there, exactly as an undisturbed run writes it; otherwise it ends with a message and a non-zero exit status. An output file whose closing fails counts as lost. Whatever such a run, or one killed at any point, has left behind, the next undisturbed run into the same directory writes every output file exactly as into a fresh one.",
  ["inputs", "crash_points", "fault_sequences"], "every schema set and target, every system call on a schema, a directory or an output file, and every error it may return", "the tests run without faults and look at no exit status",
  ["pkg/golang/gloang.go", "pkg/typescript/typescript.go", "pkg/java/java.go", "pkg/dart/dart.go", "pkg/parser/interface.go", "cmd/main.go"], [("writerFile and Build of the targets, ParseDir, parseDirFile", "pkg/*/*.go, pkg/parser/interface.go")], ["exit status, messages and output tree of the hbuf command"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
