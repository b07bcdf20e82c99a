E = "exploration"
CHECKS = {
 "C01": ("online token-stream monitor over the real scanner (reference lexer oracle, crash/hang/memory watchdog)", E, "Every generated, mutated and hostile text is scanned by the real scanner in a watched child; a monitor checks order, losslessness, kinds and errors of each token. Holds on the texts explored."),
 "C02": ("position-table monitor against a recomputed table", E, "Every offset of every generated text is resolved and compared with the line and column counted from the text."),
 "C03": ("race detector plus sequential-equivalence monitor over concurrent position-table histories", E, "Concurrent histories under -race; each completed file's positions are compared with a sequential run."),
 "C04": ("crash/hang/output watchdog and error-list monitor over the real parser, with a reference recogniser", E, "Every text runs in a watched child; non-sentences by an independent recogniser must give errors, lists are checked for order and range."),
 "C05": ("differential monitor: parse tree against the model the text was rendered from", E, "Random models in random layouts; the tree's canonical dump must equal the model's."),
 "C26": ("invariant monitor over the real naming functions", E, "Exhaustive short identifiers plus random ones; each call is checked against the stated laws."),
 "C06": ("crash/rejection monitor over the real command on generated valid schema sets, all targets", E, "Every generated valid schema set must compile for every target, silently and with every file its declarations call for."),
 "C07": ("diagnostic and output-tree monitor over the real command on generated defective schema sets", E, "Each of 23 defect kinds planted at random places; exit status, position of the diagnostic and absence of output are checked."),
 "C08": ("differential monitor of repeated runs (different directories, spellings, used output)", E, "Five runs of each schema set must agree byte for byte."),
 "C09": ("differential monitor: files compiled by the real command against a reference selection", E, "Random directory trees, patterns, path spellings and working directories against an independent glob and import closure."),
 "C10": ("file-system snapshot monitor plus system-call trace monitor of the real command", E, "Everything in a scratch tree is compared before and after; part of the runs under strace."),
 "C11": ("compiler monitor: the generated Go of random schema sets built with the Go compiler, plus compile-time assertions of bases and interfaces", E, "Every generated schema set's Go output must build against a stand-in runtime, all tag families in play."),
 "C12": ("value monitor inside compiled generated code: JSON of random values against the wire model, decoded back", E, "Random values of every generated type are encoded and decoded in the compiled code and compared with an independent wire model."),
 "C13": ("history monitor over accessor calls of compiled generated types", E, "Random histories of getter and setter calls, the whole value compared with the model after every call."),
 "C15": ("trace monitor of client, transport and implementation of compiled generated servers", E, "Random call sequences with all servers of a schema on one transport; deliveries, arguments, results, errors and tags are compared."),
 "C21": ("differential monitor: verdicts of compiled generated verification against a reference evaluation of the formats", E, "Values at and around the bounds of every declared format, member by member and as a whole."),
 "C17": ("statement-trace monitor at the database driver of compiled generated code, every statement run by SQLite", E, "Every generated function runs with hostile values; each statement's placeholders, text and acceptance by an SQL engine are monitored, twins of each call with other contents must send the same text."),
 "C18": ("state monitor: table contents before and after each generated operation against a reference table", E, "Random histories of generated operations on SQLite tables; the whole table is compared with the model's after each one."),
 "C19": ("result monitor: rows returned by generated queries against a reference evaluation of the conditions", E, "Random tables and request values; rows, order, window, groups, counts and maps are compared with a three-valued reference evaluation."),
 "C20": ("cache-event trace monitor plus differential runs with and without a cache, with failing cache and database operations", E, "Random histories with faults; invalidation before the statement, lock release, lifetimes and results are monitored."),
 "C22": ("compiler monitor: the generated TypeScript of random schema sets compiled strictly by tsc, with statements about the type of every member and method", E, "Every generated schema set's TypeScript must compile in strict mode against stand-in runtime modules, all tag families in play."),
 "C23": ("value monitor inside running generated TypeScript and Go: JSON of random values exchanged both ways against the wire model", E, "Random values of every generated type are written and read by the running TypeScript and the compiled Go; both texts and both results are compared with an independent wire model."),
 "C24": ("value and aliasing monitor over clone and default construction of running generated TypeScript", E, "Random values are cloned; equality, independence after changes, and default values are monitored in the running code."),
 "C25": ("differential monitor: verdicts of running generated TypeScript and Dart verification against a reference evaluation of the formats", E, "Values at and around the bounds of every declared format, member by member and as a whole, in the running TypeScript and Dart, with texts that stand for no value."),
 "C28": ("compiler monitor plus reflection and value monitor: the generated Java of random schema sets compiled by javac with statements about every member and method, inventoried and copied in a running JVM", E, "Every generated schema set's Java must compile against a stand-in runtime; interfaces, classes and clients are inventoried by reflection and random values set, read and copied."),
 "C14": ("table monitor inside running generated Go, TypeScript, Java and Dart: constants, lists and look-ups of every enum against the declaration", E, "Every enum of random schemas is read in four languages and looked up by declared, neighbouring and odd numbers and names."),
 "C16": ("route-table monitor: paths sent by generated clients against paths answered by generated routers, across languages", E, "Every method of every server of random schemas is called through each language's client; the path must reach the method of that name in each language's router."),
 "C27": ("inventory monitor: members, accessors, keys and methods of running generated Go, TypeScript, Java and Dart by reflection, values used through each ancestor", E, "Every type and server of random schemas with deep, wide and diamond inheritance is inventoried in each language and compared with the declared members; values are read and written through each ancestor."),
 "C31": ("cross-language trace monitor: requests and replies of generated clients and routers exchanged between running languages", E, "Random arguments and results are sent by each language's client to each language's router and back; deliveries, arguments and results are compared with the model."),
 "C29": ("front end and interpreter with monitors: the generated Dart of random schema sets parsed, resolved, null-checked and executed, its types inventoried and random values constructed, written, read, copied and spoilt", E, "No Dart SDK is installed: an own parser, resolver and strict interpreter of the language subset run the generated code, with the libraries it uses modelled."),
 "C30": ("table monitor: the translation tables of random schema sets, generated for TypeScript and Dart, loaded and read in every declared and some undeclared languages, and the keys and texts that enum values ask for looked up in them", E, "Every key of every table is read in every language and compared with the declaration; Dart runs in an own interpreter, its localisation delegate included."),
 "C32": ("UI monitor: the forms and tables generated for random schema sets are drawn for random values in TypeScript and Dart, their labels, values, options and order read, and texts and dates entered in every input", E, "The components run in node with a stand-in for the JSX factory, and in an own Dart interpreter with stand-ins for the widgets; every input's and cell's content and every stored value is compared with the model."),
 "C33": ("race detector and outcome monitor over compiled generated Go used by many goroutines at once", E, "Clients, routers, encodings, look-ups, verifications and database functions of random schemas run side by side in code built with the race detector, with delays injected at the transport; every outcome must be the one expected of the operation alone."),
 "C34": ("differential monitor over the output trees of one source set compiled in different company", E, "Two random schema sets that share type names (often of different kinds) are compiled alone, together, file by file, with unreferenced declarations added and with unused imports; every file that must not depend on the difference must come out byte for byte the same."),
 "C35": ("differential monitor of calls between generated clients and routers of two versions of a schema", E, "Random schemas and random extensions of them are compiled for Go, TypeScript and Dart; each client of one version calls each router of the other one and reads its reply; the members both know are compared with what was sent, the nullable ones only the reader knows must be null."),
 "C36": ("resource monitor (processor time, memory, output) over the command on source sets of extreme shapes", E, "21 families of source sets, random in shape, layout over files and tags, far beyond the size of real ones, compiled for every target under limits that ordinary processing stays a factor of 5 or more below; exit status and crashes are judged as well."),
 "C37": ("fault injection into the command's system calls (strace) and output paths, judged by exit status and output tree", E, "Random schema sets are compiled while one call of open, read, list, stat, mkdir, write or close on a schema, a directory or an output file fails, now or from then on, or the process is killed at it, or an output path is a full device, a directory, a file or a dangling link; success must come with the tree of an undisturbed run, failure with a message, and the next run must restore that tree."),
}
NA = {}
