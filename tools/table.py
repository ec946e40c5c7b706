# ---- claimed -----------------------------------------------------------------
prop("C01", "Parsing a text gives one result whatever the goroutine schedule",
     "Parsing a given text returns the same statements, or the same error at the same position, on every execution. The result does not depend on how the goroutines the parser starts are scheduled relative to each other or to the caller, and these goroutines never access the same memory without synchronisation.",
     ["schedules", "inputs"], "every text and every interleaving of the goroutines one parse starts, at statement, allocation and synchronisation granularity",
     "The parser tests run each text once under whatever schedule the Go runtime happens to choose, which is nearly always the same one.",
     ["lexer.go", "parser.go"], ["The lexer runs in its own goroutine and hands tokens over a channel", "peek buffer and channel close decide end of input", "context cancellation stops the lexer"],
     [("peekTokens/peekCount", "look-ahead buffer", "parser.go parseCtx"), ("out", "token channel", "lexer.go")])
prop("C02", "Parse, format, lint and diff always finish, and leave nothing behind",
     "For every input text, parsing, formatting, linting and comparing return a result or an error: they neither panic nor run on forever nor block forever. When they have returned, no goroutine they started is still alive.",
     ["schedules", "inputs"], "every pair of texts (valid, damaged, truncated, repetitive, binary) and every schedule, within a fixed budget of statements and memory per run",
     "Tests use a fixed list of short texts; a leaked goroutine or a lexer blocked after an early error is invisible to them.",
     ["lexer.go", "parser.go", "format/format.go", "diff/diff.go", "lint/lint.go", "model/table.go", "model/index.go"], ["Every iterator channel is drained or closed", "the lexer selects on the context when it emits", "parse loops consume at least one token per turn"])
prop("C03", "Concurrent callers get the results they would get alone",
     "Calls made concurrently on a shared parser, linter or parsed schema (parse, format, diff, lint, normalize, lookup, listing) each return exactly what they return when made alone. None of these calls changes the schemas it is given, and no two of them access the same memory without synchronisation, one of them writing (a data race).",
     ["schedules", "histories"], "every mix of 2 to 4 callers doing such calls on shared objects, and every interleaving of them",
     "No test calls anything from two goroutines or compares a schema before and after use.",
     ["parser.go", "diff/diff.go", "format/format.go", "model/table.go", "model/table_column.go", "model/stmts.go"], ["Per-call state lives in parseCtx/fmtCtx/diffCtx", "Normalize and Clone copy what they change", "table lookups take the table's lock"])
prop("C04", "Output is byte-for-byte the same on every execution",
     "Comparing the same two schemas (or linting the same schema) with the same options always writes the same bytes. The output does not depend on hash-map iteration order or on scheduling.",
     ["schedules", "inputs"], "every pair of schemas, every map seed and iteration start, every schedule",
     "Map iteration order differs by process and iteration, and the tests compare outputs in which at most one element of each set changes.",
     ["diff/diff.go", "lint/lint.go", "format/format.go"], ["Sets of identifiers are turned into lists in schema order before statements are written"])
prop("C05", "A reader, file or stdin source delivers exactly its contents or an error",
     "When a reader, file or standard-input source (or ParseFile) succeeds, everything and only what the source contained at that time was delivered, however the bytes were chunked or delayed, whatever was read before, and whatever characters the name of the file has. When reading, opening or delivering fails at any point, the caller gets an error. When nothing fails, no error is reported, and no file stays open afterwards.",
     ["I/O faults", "chunkings", "inputs"], "every content and file name (as a plain name, a name given to NewSchemaSource, or a file:// URI), every chunking of reads, every read, open or write that fails, is cut short, interrupted or delayed, and an atomic replacement of the file at any moment",
     "The tests read one small file and one string from a healthy file system.",
     ["source.go", "parser.go"], ["io.Copy from the source, its error wrapped and returned", "os.Open errors returned, file closed by defer", "ParseFile reads the whole file before parsing"])
prop("C06", "A MySQL source delivers every table exactly once, or an error",
     "When a MySQL source succeeds, the definition of every table that was in the database throughout has been delivered exactly once, unaltered, in the server's order; a table created, dropped or altered meanwhile appears at most once, with a definition it had. What earlier reads saw does not enter into it. When the connection is refused, lost or cut, the login fails, or the server reports an error before, instead of or amid its rows, the caller gets an error, never a schema with fewer tables. When nothing fails, no error is reported.",
     ["network faults", "server faults", "histories"], "every set of tables and names, every byte offset at which a connection is reset, closed or stalled, every statement at which the server fails, and concurrent DDL between any two statements",
     "The test needs a MySQL server, is skipped without one, and reads one table from it over a healthy connection.",
     ["source.go", "diff/diff.go"], ["errors of Query, Scan and of the row iteration are returned", "the text is collected before anything is written to the destination", "table names are quoted"])
prop("C07", "Reading from MySQL ends in bounded time and releases every connection",
     "With timeouts in the DSN, a MySQL source (or a diff of two) returns within the time its timeouts and the server's own delays allow, however the network or server stalls, hangs or swallows data. When it has returned, with or without an error, every connection it opened is closed and no goroutine of it is left.",
     ["network faults", "schedules"], "every stall, black hole, hanging dial, reset and server error at every point of the exchange",
     "No test has a server that stalls, and none looks at what is left behind.",
     ["source.go"], ["defer db.Close and tableRows.Close on every path", "the DSN's timeouts reach the driver"])
prop("C08", "A git source delivers exactly the committed file or an error",
     "When a local-git source succeeds, exactly the contents of the file at the given revision of the given repository at that time were delivered, whatever was read before. When there is no such revision or file (it is a range, an option of git or a directory), git is missing, cannot be started, exits with an error or is killed, before or after it has produced output, or its output cannot be read, the caller gets an error. No child process is left unreaped and no pipe left open.",
     ["process faults", "I/O faults", "schedules"], "every repository, revision and file, every way git can fail to start, fail, die, stall or trickle, and concurrent sources",
     "The test, when git is there at all, reads one file of a healthy repository.",
     ["source.go"], ["exec.Cmd.Run's error is returned before the collected output is used", "cmd.Dir selects the repository"])
prop("C09", "A failed write of the output is always reported",
     "When diff, lint or format return nil, the destination received the complete output. When a write to the destination fails or is cut short, at whatever write, they return an error, and what was written by then is the beginning of the right output. When an input cannot be read or parsed, they return an error and write nothing.",
     ["I/O faults", "inputs"], "every call, every pair of inputs, every write of the output failing or being cut short, every failing read of an input",
     "Tests write to a bytes.Buffer, which never fails.",
     ["diff/diff.go", "lint/lint.go", "format/format.go"], ["every Write and WriteTo error is returned", "output is collected in buffers before it is written"])
prop("C10", "A command's exit status tells the truth about its output",
     "When schemalex, schemadiff or schemalint exits with status 0, the complete and right output is at its destination (standard output, or the -o file and then not standard output). Otherwise it exits with a non-zero status and a message on standard error, and wrong or unreadable input produces no output on standard output. Input files are not changed, unless one is also the -o file and the full output has replaced it.",
     ["I/O faults", "process faults", "inputs"], "every combination of options, sources and destination, and every system call on them failing, including full disks, failing close and broken pipes",
     "The commands have no tests.",
     ["cmd/schemalex/schemalex.go", "cmd/schemadiff/schemadiff.go", "cmd/schemalint/schemalint.go"], ["_main returns every error and main turns it into exit status 1", "output is collected before the destination is opened"])
prop("C11", "Applying a migration turns the old schema into the new one",
     "The statements a diff of two schemas writes, run in order on a MySQL server that holds the old schema, are all accepted, and leave the server with exactly the tables, columns (definition and position), indexes and foreign keys of the new schema, and new tables with their options. Tables and columns that are in both are never dropped and made again. A diff made after that is empty, whichever of the two sides is a live server and however a text spells the definitions the server shows.",
     ["histories", "inputs"], "every pair of schemas (hand-written, dumped, in git or live) and every edit between them; table options and the order of columns that are in both are not compared",
     "Tests compare the text of the statements for a fixed list of pairs; nothing runs them, and nothing compares the result with what a server shows.",
     ["diff/diff.go", "model/table.go", "model/table_column.go", "model/reference.go", "model/index.go", "format/format.go", "parser.go", "source.go"], ["Normalize turns synonyms and defaults into what SHOW CREATE TABLE prints", "statements are ordered so that each is valid when it runs", "names and literals are quoted"])
prop("C12", "An interrupted migration can always be resumed",
     "When a migration stops anywhere (operator or client crash, statement error, lost session with the last statement done or not done, a failed fetch, two operators at once, a target changed back), fetching and comparing again and applying the new diff without further faults reaches the target schema. Tables and columns that are in both the original and the target schema survive all of it.",
     ["crash points", "histories", "network faults", "schedules"], "every pair of schemas, every statement at which each of several rounds stops, and every interleaving of two operators",
     "No test applies a migration at all, let alone a part of one.",
     ["diff/diff.go", "source.go"], ["DDL commits implicitly, so every prefix of the statements is a state the next diff starts from", "the diff depends on nothing but the two schemas"])
prop("C13", "A schema file damaged by a crash is never read as a smaller schema",
     "A schema file that lost its end or a block in a crash (cut inside a definition, or with zero bytes where the data was) is rejected with an error by parsing, lint and diff. It is never taken for a schema with fewer tables or columns, so no migration that drops them is written.",
     ["crash points", "inputs"], "every file and every offset at which its data can be lost inside a definition, or replaced by zero bytes",
     "Tests only parse files that are as their author wrote them.",
     ["lexer.go", "parser.go", "diff/diff.go"], ["end of input inside a statement is a parse error", "a NUL byte is an illegal character, not the end of the input"])
prop("C14", "A TLS source trusts only the server and files it was given",
     "With a boolean true tls parameter, a MySQL source sends login data and statements only over TLS to a server whose certificate the ssl-ca file and the host name verify at that moment, and presents the certificate of ssl-cert; sources used one after another or at the same time each use their own. When a file is missing, damaged or unreadable, or the server offers no TLS, fails the verification or rejects the client, or the connection is cut or tampered with, the caller gets an error and no output. When nothing fails, the schema is delivered.",
     ["network faults", "I/O faults", "schedules", "clocks"], "every set of certificate files and server certificates, every file, connection and byte that is lost or altered, clock jumps, and concurrent sources",
     "No test uses TLS.",
     ["source.go", "diff/diff.go"], ["RootCAs holds the ssl-ca file only, verification is on", "every source registers its configuration under a name of its own", "errors of reading and parsing the files are returned"],
     [("tlsName", "the name a source's configuration has in the driver's registry", "source.go MySQLConfig")])
prop("C15", "A table shared by goroutines behaves as if calls were made one at a time",
     "When several goroutines add columns, indexes and options to one table and look up and list them at the same time, every call returns, and returns what it would return if the calls had been made one after another in some order consistent with their real order. Nothing added is lost, doubled or invented, nobody crashes or waits forever, and no two calls race for the same memory without synchronisation.",
     ["schedules", "histories"], "every mix of 2 to 5 goroutines making up to 5 calls each on one table, and every interleaving of them",
     "The tests use tables from one goroutine.",
     ["model/table.go", "model/interface.go"], ["the table's read-write lock guards its columns, indexes, options and their name maps", "listing goes over a channel fed by a goroutine"],
     [("columns, columnNameToIndex", "columns in order and where each name is", "model/table.go table"), ("indexes, options", "the table's indexes and options", "model/table.go table")])

prop("C16", "A source's secrets are never shown, and never sent in the clear",
     "The password and private key of a MySQL source never appear in an error, on standard output or standard error, or in the output, whatever is wrong with the source or fails. Unless its DSN allows it, the password is never sent to a server unencrypted or in a weak form, nor is any local file sent, whatever the server asks for. A password is only used with the server it was given for.",
     ["network faults", "I/O faults", "schedules"], "every well-formed or malformed source specification, every authentication method and file a server can ask for, and every failure of network, server, certificate files and output",
     "No test looks at what an error says about a source or what a server could ask for.",
     ["source.go", "diff/diff.go", "cmd/schemadiff/schemadiff.go"], ["messages describe a source without its password", "AllowCleartextPasswords, AllowOldPasswords and AllowAllFiles keep the driver's defaults"])

# ---- decided by nothing here --------------------------------------------------
prop("C90", "Formatting a parsed schema and parsing it again gives the same schema",
     "For every text the parser accepts, formatting the parsed statements and parsing the result yields statements equal to the first ones, whatever the indentation option.",
     ["inputs"], "every accepted text", "The tests format and reparse a fixed list.", ["format/format.go", "parser.go"], ["format writes what parse reads"])
prop("C91", "Parse errors point at the offending place",
     "For every rejected text, the error names the line and column of the first token that cannot be part of a statement, and quotes the text around it.",
     ["inputs"], "every rejected text", "Tests check a handful of error texts.", ["errors.go", "lexer.go", "parser.go"], ["token positions"])
prop("C92", "A source specification is classified the same way every time",
     "Every source string is either turned into the kind of source its scheme says, with its path or DSN taken over unchanged, or rejected with an error.",
     ["inputs"], "every source string", "Tests use six strings.", ["source.go"], ["NewSchemaSource"])

PURE = "A pure function of its input: no schedule, clock, I/O, fault or interleaving enters it, so there is nothing for a simulator to control; generating inputs for it would be input fuzzing, not simulation."
NOT_APPLICABLE = {"C90": PURE, "C91": PURE, "C92": PURE}

T = "deterministic simulation: "
N = "Seeded search over simulated executions of the real code; no completeness claim."
CHECKS = {
    "C01": (T + "seeded scheduler over the parser's goroutines, results compared across schedules, and a happens-before race detector over the simulated executions", N),
    "C02": (T + "seeded schedules, bubble must drain within a step and allocation budget", N),
    "C03": (T + "simulated concurrent callers against the same calls made alone, and a happens-before race detector over the simulated executions", N),
    "C04": (T + "seeded map order and schedules, outputs compared across executions", N),
    "C05": (T + "simulated kernel and streams with read/open/write faults, delivered bytes against the contents", N),
    "C06": (T + "simulated network and MySQL servers with faults at byte offsets and statements and concurrent DDL, delivered text against the server's history", N),
    "C07": (T + "simulated clock, network and MySQL servers; connections, goroutines and simulated time accounted for after each call", N),
    "C08": (T + "simulated processes and git with start, exit, kill and stall faults, delivered bytes against the blob", N),
    "C10": (T + "whole command executions on a simulated machine with system-call faults, exit status against the output", N),
    "C09": (T + "failing destinations and inputs, bytes against the fault-free execution", N),
    "C11": (T + "migrations run on a simulated MySQL server over a simulated network; resulting definitions, object identity and a second diff compared", N),
    "C12": (T + "migrations interrupted by crashes, errors, lost sessions and competing operators on a simulated MySQL server, then one undisturbed round must converge", N),
    "C14": (T + "simulated network, TLS servers, files and clock with faults; wire bytes, logins and certificates inspected", N),
    "C15": (T + "simulated goroutines on one table, histories checked for linearizability against a sequential table, and a happens-before race detector over the simulated executions", N),
    "C16": (T + "malicious and failing servers on a simulated network; bytes on the wire, errors and output searched for planted secrets", N),
    "C13": (T + "crash images of the input file, all consumers must reject them", N),
}
