VF = "static value-flow analysis (gated SSA, interprocedural) of the Go source joined with the ANTLR grammar"
ALLQ = "every query string"
VIS = "sql/parser/sqlite/parser_antlr_visitor.go"
QRY = "sql/query"

prop("C01", "Parsing and inspecting a query never panics",
 "For every input string, parsing returns statements or an error and never panics. For every accepted query, every zero-argument accessor of the returned statements and of their parts, including rendering, returns without panicking.",
 ["inputs"], ALLQ + ", and every accessor of every statement it yields",
 "The tests parse a few hundred well-formed queries; a crash needs an unusual but grammatical clause combination.",
 ["sql/parser/sqlite", QRY], [("parse entry", "sql/parser/sqlite Parser.ParseString"), ("statement accessors", QRY)],
 VF + ": every dereference, index, slice, type assertion, division and explicit panic reachable from parsing and from the accessors is an obligation discharged under its gating condition",
 "sound for the modelled fragment; opaque external calls are assumed not to panic; obligations the analysis cannot decide are reported in the evidence, not alarmed")
prop("C02", "Parse calls are independent of each other",
 "The outcome of parsing a string depends on that string only: it is the same whatever the parser parsed before and whatever other parsers do. Parsing writes no state shared between parsers.",
 ["inputs", "histories", "schedules"], "every sequence and interleaving of parse calls",
 "Tests parse each query once per parser, in one order, on one goroutine.",
 ["sql/parser/sqlite"], [("parser state", "sql/parser/sqlite Parser"), ("package variables", "sql/**")],
 VF + " of two consecutive parse calls plus an effect analysis of writes to shared variables",
 "the generated recogniser's internal prediction cache is outside the analysis")
prop("C03", "Every syntax error is reported",
 "A query that is not a sentence of the grammar makes parsing return a non-nil error. A nil error comes with the statements of the whole input.",
 ["inputs"], ALLQ, "Tests contain a handful of malformed queries.",
 ["sql/parser/sqlite"], [("error listener", "sql/parser/sqlite"), ("parse entry", "sql/parser/sqlite Parser.ParseString")],
 VF + ": on every path with a nil error the recogniser reported no error to a listener installed for this call, and the start rule consumes the whole input",
 "decides the plumbing from the recogniser's error callback to the returned error; the recogniser itself is trusted")
prop("C04", "Each statement of a query is represented once, in order, with its type",
 "The parsed list has exactly one element per statement of the input, in input order, and each element reports the statement kind that was written. A statement kind that cannot be represented is an error.",
 ["inputs"], "every accepted multi-statement query", "Tests contain few multi-statement inputs and check few statement kinds in combination.",
 ["sql/parser/sqlite", QRY], [("statement dispatch", VIS), ("statement type", QRY + " StatementType methods")],
 VF + ": the shape of the returned list is compared with the grammar's statement list for every statement alternative of the grammar", "all grammar alternatives enumerated")
prop("C05", "SELECT keeps its selectors, tables, grouping, ordering and limit",
 "For every accepted SELECT, the returned statement lists the selectors, FROM tables, first GROUP BY key, ORDER BY terms with direction, LIMIT and OFFSET exactly as written, in order, without loss or invention.",
 ["inputs"], "every accepted SELECT", "Tests check single clauses of a few queries and mostly compare re-rendered text.",
 [VIS, QRY], [("SELECT construction", VIS), ("accessors", QRY + " Select")],
 VF + ": each public accessor of the statement is reduced to a term over the parse tree and compared with the specified term", "texts are compared up to removal of enclosing quotes; definite differences only")
prop("C06", "INSERT, UPDATE and DELETE keep their table, columns and values",
 "For every accepted INSERT, UPDATE or DELETE, the returned statement names the table as written and pairs every column with the value written for it, row by row and in order. Literals keep their text and kind, placeholders their name and arithmetic its operator and operands.",
 ["inputs"], "every accepted INSERT, UPDATE and DELETE", "Tests use few columns and rows and rarely mix literals, placeholders and arithmetic.",
 [VIS, QRY], [("DML construction", VIS), ("accessors", QRY + " Insert, Update, Delete")],
 VF + ": accessor terms compared with the specified terms over the parse tree", "texts are compared up to removal of enclosing quotes; definite differences only")
prop("C07", "CREATE, DROP and ALTER keep names, columns, types, indexes and flags",
 "For every accepted CREATE, DROP or ALTER statement, the returned statement reports the object names, IF [NOT] EXISTS flags, column definitions, indexes, rename pairs and dropped objects exactly as written.",
 ["inputs"], "every accepted DDL statement", "Tests cover one or two forms per statement and do not combine clauses.",
 [VIS, QRY], [("DDL construction", VIS), ("accessors", QRY)],
 VF + ": accessor terms compared with the specified terms over the parse tree", "the data type of a column is only shown to depend on its type name; the name table is property C12")
prop("C08", "COPY, TRUNCATE, VACUUM and USE keep their objects",
 "For every accepted COPY, TRUNCATE, VACUUM or USE statement, the returned statement names exactly the tables, columns or database written, in order.",
 ["inputs"], "every accepted such statement", "Tests contain a few instances of each.",
 [VIS, QRY], [("construction", VIS), ("accessors", QRY)],
 VF + ": accessor terms compared with the specified terms over the parse tree", "definite differences only")
prop("C09", "WHERE conditions keep their structure, operators and operands",
 "For every accepted SELECT, UPDATE or DELETE, the WHERE condition of the returned statement has the written connective, comparison operators, columns and values on the written sides. An UPDATE or DELETE with a condition never loses it: a condition that cannot be represented is an error.",
 ["inputs"], "every accepted statement with a WHERE clause", "Tests sample few operators and shapes and mostly compare re-rendered text.",
 [VIS, QRY], [("condition construction", VIS), ("accessors", QRY + " Condition, Expr")],
 VF + ": condition terms compared with the specified terms over the parse tree for every operator token of the grammar", "definite differences only")
FN = "sql/fn"
API = "interprocedural value and constant propagation (gated SSA, all branches merged into one value graph, no path enumeration) from the arguments of the public functions to their results; a result or failure condition that does not reduce to the specified one is reported only with input constants that make it differ"
prop("C16", "The function registry is consistent",
 "Every registered function name, in any letter case and with or without a following argument list, is recognised by IsRegisteredFunction, has a function type, and resolves (directly and through a Function) to exactly one executor or aggregator, which has that name and type: an aggregator exactly for the aggregate functions. A name that is not registered, including one that only starts or ends like a registered name, is refused everywhere. Callers cannot change the registry through what it returns.",
 ["inputs"], "every registered name in every case and form, and near misses of each", "Tests look up some names in upper case.",
 [FN], [("names", FN + " names.go type.go"), ("lookup", FN + " NewExecutorForName, NewAggregatorForName, NewFunction")],
 API, "all registered names x 5 spellings; near misses: one character added, removed or prefixed; bounded, not all strings")
prop("C17", "Executors check their arguments and compute the named function",
 "For any arguments, in any accepted form (row, list, map, single value), executing a built-in function never panics; it returns an error, and no value, exactly if the number of arguments is wrong, an argument cannot be converted, or it lies outside the domain of the function (SQRT below 0, LOG and LOG10 at or below 0, a negative base with a fractional exponent, a zero divisor of MOD and %); otherwise it returns the named function of the converted arguments in the order given (of a map: the values of the named columns; an argument that names no column stands for itself). RAND is in [0, 1).",
 ["inputs"], "every argument list of up to three values of any type", "Tests execute each function on a few numbers.",
 [FN], [("executors", FN + " math_func.go arith_func.go string_func.go time_func.go"), ("calling forms", FN + " executor_impl.go")],
 API, "argument lists of length 0..3; numeric accuracy of package math and safecast conversions are trusted; the time functions accept any arguments")
prop("C18", "Aggregators compute the aggregate of exactly the rows since the last reset",
 "SUM, AVG, MIN, MAX and COUNT, alone or in a set, return the aggregate of exactly the rows accepted since the last reset, whatever their number, their values and the form they are given in. Without rows SUM and COUNT are 0, the others have no value. A row that is refused (wrong column count, missing column, value that is no number) changes nothing. Finalizing does not change the state; resetting forgets every row. The result names its columns after the grouping columns and the function.",
 ["inputs", "histories"], "every history of resets, accepted and refused rows and results", "Tests aggregate two fixed tables once, in one form.",
 [FN], [("aggregation", FN + " aggr_impl.go aggr_set.go"), ("functions", FN + " sum.go avg.go min.go max.go count.go")],
 API, "histories of up to four rows, two rounds; values are arbitrary finite numbers plus infinities")
prop("C19", "Grouping separates exactly the distinct group values, in a defined order",
 "Grouped aggregation returns one row per distinct combination of group values, with these values and the aggregate of exactly the rows that have them; different combinations never share a group, whatever characters they contain and even if one is NULL and the other empty. Rows are given in first-seen order, or ascending or descending by the group values on request; the order never depends on map iteration. Group values do not change if the caller reuses its row.",
 ["inputs", "histories"], "every sequence of rows", "Tests use small integers as group values and sort the result themselves.",
 [FN], [("grouping", FN + " aggr_impl.go groupby.go")],
 API + "; every scenario that ranges over a map is evaluated under two iteration orders", "one and two grouping columns, up to four rows, adversarial key pairs; bounded")
STR = "sql/util/strings"
RS = "sql/query/response/resultset"
ERR = "sql/errors"
prop("C11", "Escaping is lossless",
 "EscapeString of any string is the string in single quotes with every quote doubled, UnEscapeString gives the original back from the single-quoted and the double-quoted form and leaves an unquoted string alone, a string literal is rendered in this escaped form, names survive escaping and unescaping, and the join and comparison helpers are exact.",
 ["inputs"], "every string", "Tests escape a few texts without quotes at the edges.",
 [STR, QRY], [("escaping", STR + " EscapeString, UnEscapeString"), ("literals", QRY + " Literal.String")],
 API, "for an arbitrary string with the algebra of ReplaceAll, concatenation and slicing; literals, Equal and names on quoting corner cases")
prop("C12", "Enumerations have exact names, and names map back",
 "Every data type, operator, order and other enumeration constant of the query model has a name of its own, the SQL name; parsing a data type or order name in any letter case gives back the constant, and an unknown name is refused. The data type of a Go value and the constraint bit sets are exact: each predicate answers for its own bit and the rendering names exactly the bits set.",
 ["inputs"], "every declared constant, name and spelling", "Tests look at some constants.",
 [QRY], [("names", QRY + " data_type.go, order.go, operators, constraint.go")],
 API + ", for every declared constant", "all declared constants; unknown names: near misses of each name")
prop("C13", "SQLSTATE codes are the standard ones",
 "Every declared SQLSTATE code has the value PostgreSQL documents for its name, is five characters long, distinct and in a declared class; every code and class has a title of its own that says its name, and unknown codes have no title of a known one.",
 ["inputs"], "every code and class", "Tests do not compare the table with the standard.",
 [ERR], [("codes", ERR + " code.go"), ("classes", ERR + " class.go")],
 API + ", for every declared constant, compared with the table of PostgreSQL appendix A", "all declared constants")
prop("C14", "Errors can be told apart",
 "Every public error constructor returns a non-nil error that errors.Is identifies with exactly the sentinel the constructor is named after, and whose message names the object it was given; the exported sentinels are distinct errors.",
 ["inputs"], "every constructor and sentinel", "Tests do not call the constructors.",
 [ERR, QRY, FN], [("constructors", ERR + " errors.go")],
 API, "all constructors and sentinels of the packages; messages on one object name")
prop("C20", "Aggregated result sets are the aggregates of their source",
 "NewAggregatedResultSetFrom on a selector list with an aggregate yields one row per distinct value of the grouping column (one row without grouping) that holds, under the selectors' names and in their order, the group value and the aggregates of exactly the source rows of this group; without an aggregate it is the source itself. The result keeps the database and table names. Missing parts, unknown columns, functions that are no aggregate and rows that cannot be read or aggregated are errors.",
 ["inputs", "histories"], "every source result set", "Tests aggregate one or two tables.",
 [RS, FN], [("aggregation", RS + " resultset_aggr.go")],
 API + "; two map iteration orders", "sources of up to four rows, one grouping column; bounded")
prop("C26", "A result set yields exactly the rows between its offset and its limit",
 "Iterating a result set yields exactly the rows rows[offset : offset+limit] (all from offset if the limit is 0), each once and in order, whatever the offset and limit; Next tells whether there is a row, Row gives the current one as often as it is asked and an ErrNoRows error before the first and after the last; nothing panics or wraps around.",
 ["inputs", "histories"], "every row count, offset, limit and cursor history", "Tests iterate one result set without offset or limit.",
 [RS], [("cursor", RS + " resultset_impl.go")],
 API, "0..4 rows, offsets and limits in 0..5 and at the top of the range; result sets with a schema")
prop("C27", "Row accessors give the column asked for, or an error",
 "ValueAt, ValueBy, ScanAt, ScanBy, Scan, Values and Object of a row give the value of exactly the column asked for, by position and by name, in the order of the schema; an index outside the row (negative ones included) or an unknown name is an error, a column the row does not have is NULL, and nothing panics.",
 ["inputs"], "every row, index and name", "Tests read a few columns of a few rows.",
 [RS], [("rows", RS + " row_impl.go")],
 API, "rows of 0..3 columns with arbitrary values, indexes from -2 to past the end, with and without schema")
prop("C28", "Result-set schemas keep their columns and report what they cannot represent",
 "A result-set schema returns the names, columns and selectors it was built from, in the order given (in a defined order for a row object), looks columns up by name, and gives each column the type, constraint and function it was given; options that cannot be applied (a selector of an unknown column, a value without data type) make NewSchemaFrom and NewResultSetFrom return an error.",
 ["inputs"], "every list of options", "Tests build a few schemas.",
 [RS], [("schemas", RS + " schema_impl.go schema_*.go column*.go")],
 API + "; two map iteration orders", "up to three columns")
prop("C10", "String renders exactly what a statement holds",
 "String of every statement, condition and column definition is the SQL text of exactly what the object holds: every clause that is set and none that is not, in the order of the grammar, lists complete and in order, string literals quoted with inner quotes doubled, other literals as they are, and AND/OR with the grouping of the expression.",
 ["inputs"], "every statement built through the public constructors", "Tests compare the text of a few parsed queries; clauses are hardly combined.",
 [QRY], [("rendering", QRY + " String methods")],
 API + ", compared token by token", "all statement kinds and clause combinations; up to three columns, tables and rows; names that need no quoting")
prop("C29", "Altering a schema changes exactly the named column or index",
 "AddColumn, DropColumn, AddIndex, DropIndex and Alter of a table schema append or remove exactly the named column or index (names compared without case) and keep the rest in order; an unknown name is ErrNotFound and changes nothing; an alteration that cannot be carried out is an error. Lists the caller handed in, or got from the schema before, stay as they were. LookupColumn and LookupIndex answer for the present state.",
 ["inputs", "histories"], "every schema and every history of alterations", "Tests do not alter schemas, or only once.",
 [QRY], [("schemas", QRY + " schema.go columns.go indexes.go"), ("alterations", QRY + " alter_table.go alter_table_from.go")],
 API, "up to three columns and indexes, every position, histories of up to three steps")
prop("C30", "A copy of a column is equal to it and independent of it",
 "Every accessor of the Copy of a column (or of a column list) answers like the original; setting a value on either leaves the other unchanged. Column and selector lists built from a caller's list do not change when the caller changes its list.",
 ["inputs", "histories"], "every column", "Tests do not modify copies.",
 [QRY], [("copies", QRY + " column.go columns.go")],
 API, "columns with every combination of definition, value and function; lists of up to three")
prop("C31", "Accessors and lookups of query objects answer for what they hold",
 "Every accessor of columns, tables, indexes, literals, selectors, conditions and statements answers for exactly what the object was built from; lookups by name ignore case and find the right element, lookups of unknown names and of positions outside the list (negative ones included) are errors; missing optional parts are reported as missing and nothing panics.",
 ["inputs"], "every object built through the public constructors", "Tests read a few accessors of a few objects.",
 [QRY], [("accessors", QRY + " column.go columns.go table.go index.go literal.go selectors.go")],
 API, "every combination of parts; lists of up to three; positions from -2 to past the end")
NET = "sql/net"
prop("C21", "Connections and the connection manager can be used concurrently",
 "Every method of a connection and of the connection manager can be called from any number of goroutines at once: no two of them access one mutable field without a common lock, no method blocks itself or leaves a lock held, no two methods lock in opposite orders, and a decision made under a lock (a connection is new, a connection is not closed yet, a schema is not listed yet) still holds when the state is changed on its account; the two indexes of the manager change together.",
 ["schedules"], "every interleaving of method calls", "Tests do not use connections concurrently.",
 [NET], [("connections", NET + " conn_impl.go"), ("manager", NET + " conn_manager_impl.go")],
 "lockset dataflow analysis over the SSA form (path-sensitive in the held locks, interprocedural through helpers, closures, defers and interface calls, objects named by access paths), a lock-order graph, and a dependence analysis between critical sections",
 "objects are matched by access path from the entry point; sync and sync/atomic are trusted; all exported methods")
prop("C22", "The connection manager finds exactly the registered connections",
 "After every history of AddConn, UpdateConn, RemoveConn, RemoveConnByUID and RemoveConnByUUID, each registered connection, and no other, is found by its UUID and by its ID and listed by Conns. A connection whose UUID or ID is registered is refused with ErrExist, an update of an unknown one with ErrNotExist; refused operations and removals of unregistered connections change nothing. Close and Stop close every connection once, keep exactly those that could not be closed and report an error for them. A connection returns the user, database, schemas, IDs and span context set on it, does not share its schema list with callers, and closes the underlying connection once.",
 ["inputs", "histories"], "every history of calls", "Tests do not use the manager.",
 [NET], [("manager", NET + " conn_manager_impl.go"), ("connections", NET + " conn_impl.go")],
 API + "; two map iteration orders", "histories over up to three connections with equal and different IDs")
STM = "sql/stmt"
prop("C23", "A bound value is exactly one literal that denotes it",
 "The text of a bind parameter is exactly one SQL literal denoting its value, whatever the value: a string or byte slice is quoted with every inner quote doubled, an integer of any size is its decimal digits, a float keeps its full precision (one that is no number is refused), a time its microseconds, nil is NULL and a bool is a boolean. No value can end its literal early.",
 ["inputs"], "every value", "Tests bind a few plain strings and numbers.",
 [STM], [("values", STM + " bind_param_impl.go")],
 API, "arbitrary strings and integers of every size as symbols; floats, bytes and times on corner cases")
prop("C24", "Every placeholder, and nothing else, is replaced by its own parameter",
 "The query a bind statement parses is the given one with the n-th ? and every $n replaced by the literal of the n-th parameter: text inside string literals, quoted names, comments and bound values is left alone, $1 is not taken for a part of $10, a placeholder may come first or be repeated. A parameter without a placeholder is ErrNotFound; an error of the parser is returned; binding twice gives the same.",
 ["inputs", "histories"], "every query and parameter list", "Tests bind values that look like no placeholder.",
 [STM], [("binding", STM + " bind_impl.go")],
 API + "; the SQL parser is replaced by a model that records its input", "about ninety query and value shapes, up to eleven parameters, two of them arbitrary strings; ? and $n are not mixed")
SYS = "sql/system"
prop("C25", "Information-schema statements and columns keep the names they are given",
 "A schema columns statement for a database and tables selects exactly these, whatever characters the names contain; reading such a statement gives the names back, and a condition that is no list of names is refused with ErrInvalid. IsSchemaColumsQuery recognises exactly the queries on information_schema.columns, in any case. The columns of schemas, listed as a result set (catalog, schema, table, column, type) and read back, have the schema, table, name and type they were defined with, in order; a result set without one of these columns or with an unknown type is an error. LookupColumn ignores case and fails with ErrNotFound on unknown names.",
 ["inputs"], "every name, table list, schema and statement", "The test generates one statement for one table.",
 [SYS], [("statements", SYS + " schema_columns_stmt_impl.go schema_columns.go"), ("columns", SYS + " schema_column_impl.go schema_columns_resutset*.go")],
 API + "; two map iteration orders", "up to three tables, names as symbols and quoting corner cases; column constraints are not represented")
prop("C32", "The stack is last in, first out",
 "After every history of PushObject and PopObject, a stack gives back the pushed objects in the opposite order, each exactly once; PeekObject shows the object PopObject would give and removes nothing, Size is the number of objects left; PopObject and PeekObject of an empty stack give nil. Two stacks do not share objects.",
 ["inputs", "histories"], "every history of calls", "Tests push and pop one sequence.",
 ["sql/util"], [("stack", "sql/util stack.go")],
 API, "every history of up to six pushes and pops, runs of forty, two stacks in turn; objects as symbols")
prop("C33", "The package sql is the package it fronts",
 "Every type, constant and error of package sql that stands for one of the packages behind it (query, resultset, net, parser) is the one of the same name there, ResultSetX being X of resultset; NewParser returns a parser of the repository.",
 ["inputs"], "every exported name", "Tests use some of the names.",
 ["sql"], [("facade", "sql *.go")],
 "type-checked object comparison of the exported scope of package sql against the packages it re-exports, and value propagation for its variables and NewParser", "all exported names")
prop("C15", "A column value takes the type of its column, or is refused",
 "After SetValue on a column with a definition, or SetSchema on a column list, the value of each column is the given value converted to the Go type of the data type (int8, int16, int32, int64 for TINYINT, SMALLINT, INT and INTEGER, BIGINT; float32, float64 for FLOAT, DOUBLE; bool for BOOLEAN), unchanged for character, binary and time types; a value that cannot be converted or does not fit is an error, and so is a column the schema does not have. Columns without a value get the definition and no value; names and other columns stay as they were.",
 ["inputs"], "every value and data type", "Tests set a few numbers.",
 [QRY], [("values", QRY + " column.go columns.go")],
 API, "an arbitrary value for every data type with a Go type and eight others; bounds of the integer types; the conversions of go-safecast are trusted")
prop("C34", "Functions and their results answer for what they were built from",
 "A function has the name (upper-cased), type and arguments it was built from, before and after its executor or aggregator was asked for, and hands its arguments to them; its text is name(arguments). Argument lists keep their order, do not share the list of the caller, and are an asterisk if empty or *. An executor built around a function of the caller applies it to all converted arguments in order, returns its value or error, and refuses arguments that cannot be converted (or a wrong number of them, for casts and operators). A function result set yields every row once and in order, as a list and as a map from column to value with NULL for missing ones, and ErrNoData before the first.",
 ["inputs", "histories"], "every function, argument list and result set", "Tests read a few accessors.",
 [FN], [("functions", FN + " func_impl.go args.go arg.go"), ("result sets", FN + " resultset_impl.go map.go row.go")],
 API, "six kinds of function, argument lists of up to three, result sets of up to three rows with arbitrary values")

# ---- not applicable
na("C35", "Parsing takes time and memory bounded by the size of the query",
   "ParseString terminates for every input, and the time, stack and memory it uses are bounded by a modest polynomial of the length of the input.",
   ["inputs"], "every input string, of any length and nesting depth",
   "tests use short queries; adaptive LL(*) prediction can take long, and recursive descent can nest deep, for inputs that tests do not contain",
   ["sql/parser/sqlite/parser_antlr.go", "sql/parser/sqlite/antlr"],
   [("parsing", "sql/parser/sqlite/parser_antlr.go ParseString")],
   "The cost lies in the adaptive prediction of the ANTLR runtime, a library outside the repository that interprets serialized tables; a bound is a statement about a runtime quantity for which no sound static argument is in reach.")
na("C36", "A parsed and rendered statement parses back to an equal statement",
   "For every query that parses, the text that String gives for each of its statements parses, and gives a statement equal to the first.",
   ["inputs", "programs"], "every query of the grammar",
   "tests compare the texts of some queries",
   ["sql/query", "sql/parser/sqlite"],
   [("rendering", "sql/query (String methods)"), ("parsing", "sql/parser/sqlite (visitor)")],
   "It needs the language of the rendered texts to be included in the grammar and the recogniser to be inverse to rendering: inclusion of context-free languages, through a recogniser outside the repository. The halves are decided: C05-C09 (parse tree to statement) and C10 (statement to tokens), each for the parts that the statements represent.")
na("C37", "Math functions are accurate",
   "The result of every math function is the correctly rounded value of that function, for every argument in its domain.",
   ["inputs"], "every float64 argument",
   "tests sample a few arguments",
   ["sql/fn/math.go", "sql/fn/math_func.go"],
   [("math functions", "sql/fn/math_func.go")],
   "It depends on the algorithms of package math over all floats, which a static argument over this repository cannot bound; C17 decides that the named function is applied to the arguments.")
