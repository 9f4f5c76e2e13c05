prop("C04", "A copy between storages moves every row exactly once while others write",
     "INSERT INTO target SELECT ... FROM source [WHERE ...] in pages of any @batch, directly or through a memory table, stores every row that meets the condition and is in "
     "the source from start to end exactly once, with values the source held; rows that others insert or delete in the meantime arrive at most once; "
     "nothing else is stored. This holds for storages that page by offset (while rows are only appended) and for storages that page by key when the statement orders "
     "by the key (while rows are inserted, deleted and updated anywhere).",
     ["inputs", "schedules", "configurations"],
     "all source contents, page sizes, conditions, orders, write modes, and all concurrent changes at all points between pages",
     "No test has a second writer; page boundaries and concurrent changes meet in far more ways than fixed files can show.",
     ["syncanysql/taskers/query.py", "syncanysql/compiler.py", "syncanysql/executor.py"],
     [("paging arguments", "syncanysql/executor.py: compile; syncanysql/taskers/query.py: start, compile_tasker"), ("order pushed to the storage", "syncanysql/compiler.py: compile_order"),
      ("pages and cursors", "%s/taskers/core: run_batch" % CORE)],
     ["rows of the target table"],
     TECH % ("tables, page sizes and a concurrent client's changes", "the set of acceptable copies"),
     "Seeded exploration with a simulated second client changing the source between pages.")

prop("C09", "A finished script holds no connection, file or intermediate table",
     "When execute() ends, by returning, by an error of any kind, by an interrupt or because it was stopped with terminal(), every storage connection it took has been given "
     "back, no connection was used by two at once or after it was closed, no file is left open, and no intermediate table of a subquery, UNION, WITH, "
     "DISTINCT or batch reduction is left in the memory database. Closing the engine closes every connection.",
     ["fault_sequences", "histories", "programs"],
     "all sequences of correct and failing scripts, in engine or context, all fault kinds and positions, idle times",
     "Tests never look at connections or intermediate tables, least of all after a failure in the middle of nested taskers.",
     ["syncanysql/taskers/query.py", "syncanysql/executor.py", "syncanysql/__init__.py", "syncanysql/calculaters/query_tasker_calculater.py"],
     [("tasker close on every path", "syncanysql/taskers/query.py: run_tasker"), ("clearing intermediate tables", "syncanysql/executor.py: clear_temporary_memory_collection"),
      ("engine close", "syncanysql/__init__.py: ScriptEngine.close")],
     ["connections as the storage server sees them", "names in the memory database", "/proc/self/fd"],
     TECH % ("sequences of correct and failing scripts", "invariants on connections and intermediate tables after every script"),
     "Seeded exploration; invariants checked after every script, however it ended.")

prop("C10", "Finished statements survive a crash; rerunning an interrupted one completes it",
     "Once a statement has returned, everything it wrote is in the storage: a crash right after it, at whatever point of later work, loses none of it, also with storages that "
     "buffer writes. A U, UI, UDI, DI or DELETE statement that a crash or storage failure interrupted anywhere, run again by a new process, leaves the same tables as if it had "
     "never been interrupted.",
     ["crash_points", "histories", "fault_sequences"],
     "all histories of writes and deletes, crashes before and after every storage operation and between statements, repeated crashes, storage failures, batch sizes",
     "No test stops a process; the crash points between flushes of a batched, buffered write are out of reach for them.",
     ["syncanysql/taskers/query.py", "syncanysql/taskers/delete.py", "syncanysql/executor.py"],
     [("flush and close at the end of a tasker", "syncanysql/taskers/query.py: run_tasker; %s/taskers/core: run_batch, close" % CORE),
      ("write modes", "syncanysql/compiler.py: compile_insert_into")],
     ["durable tables at every crash and at the end"],
     TECH % ("histories of writes with crashes and restarts", "the table state machine"),
     "Seeded exploration; a crash abandons the whole interpreter state, buffered writes included, and a fresh engine continues.")

prop("C15", "Variables hold what was last assigned in their scope; statements see just that",
     "After SET @v, SET GLOBAL @v, SELECT ... INTO @v or set_variable() the variable has exactly that value for every later script and statement of its scope, and for child contexts "
     "that do not assign it themselves; a context's assignment is never seen outside of it; an assignment in the parent is seen by a child. Expressions, conditions, IN lists "
     "and ${} substitution see the value current when the statement runs; INTO gives a scalar, object or list according to the result.",
     ["histories", "inputs", "configurations"],
     "all histories of assignments and reads over engine and several contexts, all value types",
     "Tests set one or two variables in one scope; visibility between scopes over a history is not tested at all.",
     ["syncanysql/executor.py", "syncanysql/taskers/set.py", "syncanysql/taskers/into.py", "syncanysql/__init__.py"],
     [("scope chain", "syncanysql/executor.py: EnvVariables"), ("assignment", "syncanysql/taskers/set.py; syncanysql/taskers/into.py"),
      ("substitution", "syncanysql/executor.py: compile_variable"), ("reads", "syncanysql/calculaters/env_variable_calculater.py")],
     ["every variable in every scope after every call", "tables written from variables"],
     TECH % ("histories of assignments and reads in several scopes", "the reference environment"),
     "Seeded exploration of histories; every variable compared in every scope after every call.")

prop("C12", "Contexts running at the same time on several threads do not disturb each other",
     "Scripts run by several contexts of one engine on several threads at once give, for every interleaving, what each gives when they run one after the other: the same tables, "
     "variables, intermediate results, storage operations and errors. A failure, interrupt or terminal() in one thread's context leaves the others alone. No "
     "connection is used by two threads at once, and nothing is left behind when all have ended.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings at source lines and storage operations of two or three threads, with subqueries, CTEs, unions, INTO, correlated subqueries, memory tables, failures",
     "Tests are single-threaded; a shared attribute or intermediate table name only shows under particular interleavings.",
     ["syncanysql/executor.py", "syncanysql/__init__.py", "syncanysql/taskers/query.py", "syncanysql/taskers/into.py", "syncanysql/calculaters/query_tasker_calculater.py"],
     [("thread-local current executor and context", "syncanysql/executor.py: Executor; syncanysql/__init__.py: ExecuterContext"),
      ("names of intermediate tables", "syncanysql/compiler.py; syncanysql/taskers/query.py; syncanysql/taskers/into.py; syncanysql/calculaters/query_tasker_calculater.py"),
      ("scopes of contexts", "syncanysql/__init__.py: ScriptEngine.context")],
     ["tables", "memory tables", "variables of each context", "storage operations of each thread", "outcome of each script"],
     TECH % ("scripts for two or three threads, a schedule of thread switches and faults", "the same run without thread switches"),
     "Seeded exploration of thread schedules; a schedule is recorded as its list of switch points and replays exactly.")

prop("C18", "However a script is delivered, its statements run once each and in order",
     "A script given to execute(), a context, a file run with EXECUTE, the executes setting, the command line (file or pipe) or typed at the prompt runs each of its statements exactly "
     "once, in order, with included files run in their place, whatever stands between statements, in comments or in literals. A script that does not compile runs nothing. When a statement "
     "fails or the script is stopped, no later statement of that script runs, the failure is reported (exit code 1, 130 for an interrupt), and the next script or prompt entry runs as usual.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all programs of statements and nested files, all seven ways of delivery, a storage error, interrupt, stop, signal or unreadable file at any point",
     "Tests run fixed files through one or two entry points; what runs after a failure or stop at an arbitrary point is not tested.",
     ["syncanysql/parser.py", "syncanysql/main.py", "syncanysql/prompt.py", "syncanysql/executor.py", "syncanysql/taskers/execute.py"],
     [("splitting", "syncanysql/parser.py: SqlParser"), ("entry points", "syncanysql/main.py; syncanysql/prompt.py; syncanysql/__init__.py"),
      ("sequencing", "syncanysql/executor.py: run, execute, terminate"), ("nested files", "syncanysql/taskers/execute.py")],
     ["order of stored marks", "exit codes", "entries taken by the prompt"],
     TECH % ("programs, ways of delivery and faults", "the order of the program"),
     "Seeded exploration; every run compares the complete sequence of stored marks with the program order.")

prop("C17", "The prompt's history survives crashes, disk errors and trimming",
     "Every entry typed at the prompt (except exit) is offered again, exactly as typed and in order, by every later session, at least as long as it is among the newest 50. "
     "A crash, full disk or I/O error at any point of adding an entry or trimming the file affects at most the entry being added, and the prompt goes on or starts again.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "all sequences of sessions and entries, a crash or disk error at every file operation, histories around the trimming limit",
     "No test touches the history file; losing it takes a crash at one point of a rewrite that happens only past 50 entries.",
     ["syncanysql/prompt.py"],
     [("reading and trimming", "syncanysql/prompt.py: CliFileHistory.load_history_strings"), ("adding", "syncanysql/prompt.py: CliFileHistory.store_string"), ("prompt loop", "syncanysql/prompt.py: CliPrompt.run")],
     ["entries offered at every session start"],
     TECH % ("sessions of entries with a crash or disk error at a file operation", "the list of entries made"),
     "Seeded exploration; file writes are buffered by the simulator, so that a crash leaves any prefix of what was not flushed.")

prop("C14", "Every statement sees the configuration of its scope, in order of precedence",
     "A statement uses the databases and imports that result from, in rising precedence: the files of the home and the current directory (after what they extend), the engine's config, SET GLOBAL, "
     "SET / USE / use() of the engine, of the context and of the file being executed. A setting merges into the database of the same name; a later change is seen by every later statement of "
     "its scope and of scopes below that do not override it, and never outside. Init files run once, in order. After a restart only files and engine config remain; an unreadable file is an error.",
     ["configurations", "histories", "inputs", "fault_sequences"],
     "all combinations of files with extends, all histories of SET, USE and use() over engine, contexts and nested files, restarts, unreadable files",
     "Tests use one config and at most one context; precedence and visibility between scopes over a history are not tested.",
     ["syncanysql/config.py", "syncanysql/taskers/set.py", "syncanysql/taskers/use.py", "syncanysql/taskers/execute.py", "syncanysql/__init__.py"],
     [("files and merging", "syncanysql/config.py: GlobalConfig"), ("scopes", "syncanysql/config.py: SessionConfig"), ("SET and USE", "syncanysql/taskers/set.py; syncanysql/taskers/use.py"),
      ("use()", "syncanysql/__init__.py: ScriptEngine.use, ExecuterContext.use")],
     ["which server and which imported module each statement used", "init files run"],
     TECH % ("configuration files, engine configs and histories of changes with restarts and unreadable files", "the reference configuration"),
     "Seeded exploration; every read is compared with the reference configuration of its scope.")

prop("C16", "Current-time functions follow the clock and time zone, at any instant",
     "NOW and the functions of the current time give the time of the clock at some instant while their statement runs (never of its compilation or of an earlier row's statement), in the configured time "
     "zone (the system's if none is configured), and UTC_* in UTC; everything computed in one row without storage access in between agrees on that instant. Date arithmetic, conversions to and from Unix "
     "time and conditions on the time agree with it at every instant: midnight in any zone, month ends, leap days, zone transitions, after a clock jump and across stalls.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "all instants, time zones, latencies of storage, clock jumps forwards and backwards and stalls, all places an expression of the time can stand",
     "The tests compare with the machine's clock at the instant they run, in one zone; month ends, midnight and a clock that jumps never occur.",
     ["syncanysql/calculaters/mysql_funcs/datetime_funcs.py", "syncanysql/config.py", "syncanysql/calculaters/mysql_calculater.py"],
     [("current time", "syncanysql/calculaters/mysql_funcs/datetime_funcs.py: mysql_currenttimestamp, mysql_curdate, mysql_sysdate, mysql_unix_timestamp, mysql_utc_timestamp"), ("arithmetic", "syncanysql/calculaters/mysql_funcs/datetime_funcs.py: calculate_datetime"),
      ("time zone", "syncanysql/config.py: GlobalConfig.load")],
     ["values of the time in every row written, and which rows a condition on the time kept"],
     TECH % ("start instants, zones, statements, storage latencies, stalls and clock jumps", "the virtual clock's own history"),
     "Seeded exploration; each row must agree with one instant the virtual clock had while its statement ran.")

prop("C11", "Row-sequential state follows the row order, whatever the batches",
     "ROW_INDEX, ROW_LAST and an assignment `@v := ...` in a select list are evaluated once per row in the order of the rows their SELECT reads: ROW_INDEX counts them from 1, ROW_LAST gives the value "
     "of the row before (NULL at the first), an assignment sees what the row before left and what it leaves is read by later statements. That holds across batches of @batch rows, faults, "
     "in derived tables and UNION parts, starts anew with every statement, and nothing of one engine or context's variables is visible to others.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "all tables, batch, join-batch and recovery settings, all combinations of these expressions with conditions, derived tables, joins and UNION, stalls and clock jumps",
     "Tests use memory tables of a few rows which are read in one batch.",
     ["syncanysql/calculaters/row_calculater.py", "syncanysql/taskers/query.py", "syncanysql/compiler.py", "syncanysql/calculaters/__init__.py"],
     [("row state", "syncanysql/calculaters/row_calculater.py"), ("variables", "syncanysql/calculaters/env_variable_calculater.py"), ("execution", "syncanysql/taskers/query.py: QueryTasker")],
     ["rows written by statements using the state", "variables read afterwards"],
     TECH % ("tables, statements, batch settings and storage delays", "evaluating row by row"),
     "Seeded exploration; every row written is compared with a sequential evaluation.")

prop("C13", "Expanding expressions give a row per value; a transform sees every row",
     "A SELECT with YIELD_ARRAY or a generator function gives, for every row that its WHERE keeps, one row per value (several generators of a row advance together, padded with NULL; without any value no row), "
     "and HAVING, ORDER BY, LIMIT and OFFSET apply to the rows so made. A transform function (pivots, registered ones) gets all rows of its derived table in order at once, and its rows are "
     "what the statement, or the query around it, continues with. Neither depends on @batch, @limit, storage latency or where the query stands.",
     ["inputs", "configurations", "fault_sequences"],
     "all tables and arrays (empty ones too), batch settings, conditions, HAVING, ORDER BY, LIMIT, and positions: plain, UNION, derived table, group, join, intermediate table, variable",
     "Tests expand one literal array and pivot one small memory table, in one batch.",
     ["syncanysql/compiler.py", "syncanysql/calculaters/generate_calculater.py", "syncanysql/taskers/query.py"],
     [("generators", "syncanysql/compiler.py: compile_calculate, is_yield_column; syncanysql/calculaters/generate_calculater.py"), ("transforms", "syncanysql/__init__.py: register_calculater; syncanysql/taskers/query.py; %s/calculaters" % CORE)],
     ["rows written"],
     TECH % ("tables, expanding statements, batch settings and storage delays", "expanding row by row"),
     "Seeded exploration; rows written are compared with the reference.")

prop("C19", "Constants keep their written value; INSERT fills the columns it names",
     "A constant (number, string, hex, bit, boolean, NULL, negated ones) or variable denotes the same value wherever it stands: VALUES, select lists, IF and CASE, conditions, IN lists, joins, HAVING, derived tables, UNION and WITH. "
     "INSERT INTO t(columns) writes the n-th value or selected column into the n-th column named, for every row, unchanged by the values of other rows; a wrong number is refused. A variable in any of these places has the value it has "
     "when the statement runs: one set by an earlier statement of the same script too.",
     ["inputs", "configurations", "schedules"],
     "all constants (quotes, backslashes, comment marks and newlines in strings, large, negative and fractional numbers), all places, write modes, rows, column lists, batch settings, one script or several",
     "Tests insert a few plain numbers and words, of one type per column.",
     ["syncanysql/compiler.py", "syncanysql/parser.py", "syncanysql/config.py"],
     [("constants", "syncanysql/compiler.py: parse_const"), ("VALUES and column lists", "syncanysql/compiler.py: compile_insert_into"), ("splitting of texts", "syncanysql/parser.py: SqlParser")],
     ["rows written", "variables read afterwards"],
     TECH % ("constants, places, tables, write modes and batch settings", "the values written"),
     "Seeded exploration; every row written is compared with the values in the text.")

prop("C20", "A condition selects the rows for which it is true, wherever it stands",
     "A condition (comparisons with the constant on either side, IN, BETWEEN, LIKE, IS NULL, their negations, AND and OR, over columns, arithmetic, IF, CASE, IFNULL, COALESCE and variables) selects exactly the rows for which it is "
     "true by SQL's rules, NULL being neither true nor false: in WHERE, HAVING, ON, IF, CASE, inside aggregates, PARTITION BY, GROUP BY, derived tables, CTEs, UNION parts, IN and EXISTS subqueries and DELETE, whether the storage or "
     "syncany evaluates it, for any batches and storage.",
     ["inputs", "configurations", "schedules"],
     "all conditions, tables with NULLs, places, variables, batch settings and storages",
     "Tests use a few conditions each in one place; how a condition is divided between storage, join loaders and predicates depends on its shape, its place and its neighbours.",
     ["syncanysql/compiler.py", "syncanysql/calculaters/mysql_funcs/logical_funcs.py", "syncanysql/taskers/query.py"],
     [("conditions for the storage", "syncanysql/compiler.py: compile_where_condition"), ("conditions of joins", "syncanysql/compiler.py: parse_on_condition"),
      ("HAVING", "syncanysql/compiler.py: compile_having_condition"), ("comparisons", "syncanysql/calculaters/mysql_funcs/logical_funcs.py")],
     ["rows written or deleted"],
     TECH % ("conditions, places, tables, batch settings and storages", "a three-valued evaluation of the condition"),
     "Seeded exploration; every statement's rows are compared with the condition evaluated row by row.")

prop("C21", "A file named in a statement is the table of its rows",
     "A json or csv file named in a statement, by any spelling of its path, is the table of the rows it holds at that moment: selects, joins, subqueries and conditions read exactly them, in later statements and sessions too, and INSERT in "
     "every mode and DELETE leave exactly the defined rows in that file and change no other. A statement whose file cannot be read or written fails and says so; one that failed before it wrote leaves the file as it was, and later statements work.",
     ["histories", "inputs", "faults", "configurations"],
     "histories of statements over files in several directories, spellings of paths, contents, restarts, replacements from outside, disk errors and full disks, batch settings",
     "Tests read fixed files in examples and write to one; similar names, histories, restarts, changed files and disk faults do not occur.",
     ["syncanysql/compiler.py", "syncanysql/taskers/query.py", "syncanysql/taskers/delete.py", "syncanysql/config.py"],
     [("files as databases", "syncanysql/compiler.py: parse_table, compile_table"), ("drivers of a file", "syncanysql/config.py"),
      ("write modes", "syncanysql/compiler.py: compile_insert_into")],
     ["contents of all files after each statement", "rows of queries", "errors raised"],
     TECH % ("file histories, spellings, contents, restarts and disk faults", "a model of one table per file"),
     "Seeded exploration; the text of every file below the drivers is checked after every statement.")

prop("C22", "What a statement shows is its result, in the order and format it asks for",
     "A SELECT, or an INSERT INTO standard output or error by any of its names, shows each row of its result once, with the selected columns in the order selected and rows in the order asked for, in the format of the place (json lines, csv, "
     "text; dates as configured) and only there; statements show in the order of the script. None of it depends on batches or storage. A statement whose output or storage fails says so, has shown no row that is not in its result, and nothing after it runs.",
     ["inputs", "configurations", "faults", "histories"],
     "scripts of selects of every kind, names of outputs, formats, batch settings, storage errors and write errors of the output",
     "Tests read results from memory tables; what is printed is only seen to be something.",
     ["syncanysql/compiler.py", "syncanysql/taskers/query.py", "syncanysql/config.py", "syncanysql/executor.py"],
     [("names of outputs", "syncanysql/compiler.py: parse_table, compile_insert_into"), ("order of columns", "syncanysql/compiler.py: compile_select_column"),
      ("formats", "syncanysql/config.py"), ("order of statements", "syncanysql/executor.py")],
     ["everything written to file descriptors 1 and 2, in order", "errors raised"],
     TECH % ("scripts, outputs, formats, batch settings and faults", "a relational evaluator and the order of the script"),
     "Seeded exploration; the text below the output driver is parsed and compared.")

prop("C23", "A memory table holds what statements and calls of its engine last put there",
     "After push_memory_datas, pop_memory_datas, INSERT in any mode, DELETE and copies between memory tables (of the default database or configured ones), through an engine or its contexts, a memory table holds exactly the rows they define, "
     "and get_memory_datas, pop_memory_datas and every statement that reads it see just those. Each table is its own: writing one, or changing rows given to push or returned by get, changes no other table, no other engine and nothing already stored. "
     "A failed statement leaves rows as a failed write may; a closed engine's memory is gone.",
     ["histories", "faults", "inputs"],
     "histories of API calls, statements, failures and restarts over several tables and engines",
     "Tests push or write a table once and read it once.",
     ["syncanysql/__init__.py", "syncanysql/databases.py", "syncanysql/taskers/query.py", "syncanysql/taskers/delete.py", "syncanysql/compiler.py"],
     [("memory API", "syncanysql/__init__.py: push_memory_datas, pop_memory_datas, get_memory_datas"), ("copies", "syncanysql/databases.py: QueryMemoryDB"),
      ("writes to memory", "syncanysql/taskers/query.py: compile_tasker"), ("names", "syncanysql/compiler.py: parse_table")],
     ["rows returned by the memory API", "rows read by statements", "variables"],
     TECH % ("histories of calls and statements in two engines, with failures and restarts", "a table machine per engine"),
     "Seeded exploration; all memory tables of both engines are compared after each step.")

prop("C24", "A nested column names the same value of a document wherever it stands",
     "A nested column (`order.items.:0.price`: keys, items and slices of arrays) names the value found by walking the document, NULL where a part is missing, NULL or not an object, and the list of the values for a key of an array; get_value with the same parts "
     "gives the same. It does so as a column, in conditions (WHERE, ON, IF, CASE), and as operand of GROUP BY, ORDER BY, joins, aggregates, windows, IN and correlated subqueries, whether the document comes from a storage, a memory table, a json file, "
     "a derived table or a CTE, with any batch setting. A statement whose storage fails says so.",
     ["inputs", "configurations", "faults"],
     "documents of any shape, paths, places in a statement, holders of the document, batch settings, storage failures",
     "Tests select a few paths of one document; conditions on paths, other holders and paging are not run.",
     ["syncanysql/compiler.py"],
     [("columns", "syncanysql/compiler.py: parse_column, compile_column"), ("conditions given to storages", "syncanysql/compiler.py: is_nested_column, compile_where_condition, parse_on_condition"),
      ("get_value", "syncanysql/compiler.py: compile_calculate")],
     ["rows written"],
     TECH % ("documents, paths, places, holders, batch settings and storage failures", "a walk over the document"),
     "Seeded exploration; every statement's rows are compared with the values walked to.")

prop("C25", "A type annotation or cast gives the converted value wherever it stands",
     "`column[type]`, convert_type(column), column::type and CAST(column AS type), alone or one in another, give the column's value converted to that type: as a column and as operand of calculations, IF, CASE, aggregates, GROUP BY, HAVING, DISTINCT, "
     "ORDER BY, windows, joins, subqueries, UNION, INTO and conditions, whether the rows come from a storage, a memory table, a derived table or a CTE, qualified or not, with any batch setting; a type changes no other use of the column. "
     "A statement whose storage fails says so.",
     ["inputs", "configurations", "faults"],
     "values of each type, spellings of each conversion, places in a statement, sources of the rows, batch settings, storage failures",
     "Tests convert a few constants in select lists; conversions in clauses, over other sources and paging are not run.",
     ["syncanysql/compiler.py"],
     [("annotations and casts", "syncanysql/compiler.py: parse_column, parse_cast_typing_filter, compile_column_filter"), ("clauses", "syncanysql/compiler.py: compile_aggregate_key, compile_order, parse_on_condition, parse_condition_typing_filter")],
     ["rows written"],
     TECH % ("values, conversions, places, sources, batch settings and storage failures", "conversion of each row's value in Python"),
     "Seeded exploration; every statement's rows are compared with the converted values.")

prop("N01", "Scalar functions and operators give MySQL's values for all arguments",
     "Every scalar function and operator (string, number, JSON, bit, cast, comparison) gives the value MySQL gives, for all arguments including NULL; those of the current time are C16, constants C19, conditions C20.",
     ["inputs"], "all functions and all argument values", "Tests call each with a few values.",
     ["syncanysql/calculaters/mysql_funcs/", "syncanysql/calculaters/mysql_calculater.py"],
     [("functions", "syncanysql/calculaters/mysql_funcs/")], ["values selected"], "", "")

prop("N02", "Every statement of the supported dialect parses into what it denotes",
     "Each statement of the documented dialect is compiled into the operation it denotes, and anything else is refused; how statements are separated and delivered is C18, constants are C19, what compiled statements do the other properties.",
     ["inputs"], "all texts", "Tests parse fixed statements.",
     ["syncanysql/parser.py", "syncanysql/compiler.py"],
     [("parser", "syncanysql/parser.py"), ("compiler", "syncanysql/compiler.py")], ["compiled statements"], "", "")

NOT_APPLICABLE += [
    {"property": "N01", "reason": "pure functions of their arguments: no scheduling, time, storage, randomness or fault can change their outcome, so simulation has nothing to decide (input fuzzing or proof would be the family for it)"},
    {"property": "N02", "reason": "a pure function of the text, without time, I/O or concurrency; the parts of it that depend on delivery, files and history are C14, C15 and C18"},
]
