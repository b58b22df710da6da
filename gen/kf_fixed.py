FIXED = [
"property=C04 b070b0a unsupported statements were dropped without an error",
"property=C09 1295f3f UPDATE/DELETE with a condition that cannot be represented lost it and hit every row",
"property=C01 8c9cc08 INSERT without VALUES panicked",
"property=C01 2e81981 UPDATE t SET (a, b) = ... panicked",
"property=C01 adb5714 CREATE INDEX over an expression panicked",
"property=C01 4910c7c PRIMARY KEY over an expression panicked",
"property=C02 93a66bc a syntax error made every later parse of the same parser fail",
"property=C07 098edcb ALTER TABLE DROP COLUMN lost the column name",
"property=C10 02ddb27 GROUP BY was rendered after ORDER BY and LIMIT",
"property=C05 f777b8c LIMIT offset, count was read in the wrong order",
"property=C05 7fe7cc4 ORDER BY terms without a direction were dropped",
"property=C06 b0df472 UPDATE values that cannot be represented were dropped",
"property=C06 e2086e3 INSERT values that cannot be represented were dropped",
"property=C05 499f74b the alias was part of the FROM table name",
"property=C01 ad20d89 INSERT rows with more values than columns panicked",
"property=C06 e743252 alias and index hint were part of the UPDATE/DELETE table name",
"property=C29 af62205 DropColumn/DropIndex of a schema removed the wrong element",
"property=C10 004f8f9 ALTER TABLE DROP INDEX was not rendered",
"property=C11 4ace6de quotes inside string literals were lost",
"property=C31 e2102d0 columns without definition or literal panicked",
"property=C30 b668bb4 Column.Copy dropped the value and the function",
"property=C31 5839515 negative column indexes panicked",
"property=C05 a46beac Selectors.HasFunction was always false",
"property=C12 d148009 the NAME data type had no name",
"property=C31 fc66778 schema.SchemaName returned the table name",
"property=C07 722e02f DECIMAL(10,2) lost its type",
"property=C07 914a5c5 columns declared without a type were dropped",
"property=C16 7f1dcc1 LOG10 resolved to the LOG executor",
"property=C16 65ce6ab any text ending in ) counted as a registered function",
"property=C16 38a36e7 names that only start with a registered name (SUMMARY, ABSOLUTE) resolved to it",
"property=C16 ca3ebda RegisteredFunctionNames handed out the registry itself",
"property=C16 b067e2e a function named in lower case had no type",
"property=C16 151ee2f WithFunctionAggregator dropped the aggregator",
"property=C17 75dac1e 5 % 0 panicked",
"property=C17 8a4be01 SQRT(0) was refused",
"property=C17 0b3f457 RAND could return 1.0",
"property=C18 d1cf785 MIN of +Inf was the largest finite number",
"property=C19 ba94d1d groups were returned in map order",
"property=C19 415887a the descending order was not a strict order",
"property=C19 6b40000 group values were kept in the row of the caller",
"property=C19 00d6a6e maps could not be aggregated by group",
"property=C19 0d0616f different group values shared a key: (a,b | c) and (a | b,c)",
"property=C18 bb71c0e a refused row left an empty group behind",
"property=C18 01784da sets without grouping lost the columns of later aggregators",
"property=C14 47520ab the error constructors did not wrap the errors they are named after",
"property=C12 9966b64 combined constraints had no name",
"property=C26 6e81570 offset and limit were applied inconsistently and Row panicked outside the rows",
"property=C27 21cc391 ValueAt(-1) panicked",
"property=C28 287ad20 every result set column counted as a function",
"property=C28 93468ee the columns of a row object were in map order",
"property=C20 f836985 selectors of unknown columns were accepted and a source without schema panicked",
"property=C06 bc579e1 INSERT lost the schema of the table",
"property=C07 878fdc5 CREATE TABLE lost the schema of the table",
"property=C10 6892c21 COPY rendered its source file without quotes",
"property=C10 d563780 an offset without a limit was not rendered",
"property=C29 8dc1dc0 altering a schema wrote into the lists of callers",
"property=C31 eedae70 the column * was no asterisk",
"property=C31 e9536ff the string '?' counted as a place holder",
"property=C10 68ccc12 (a OR b) AND c was rendered without parentheses",
"property=C21 3e49d6d two concurrent Close calls closed the underlying connection twice",
"property=C21 9138a7a the span context of a connection was accessed without its lock",
"property=C22 749b1e9 Span of a connection without a tracer panicked",
"property=C22 ddb5ac1 a connection shared its schema list with the caller",
"property=C22 4811aa5 removing a refused connection unregistered another one with the same ID",
"property=C22 de4a9c4 an updated connection stayed registered under the IDs of the former one",
"property=C23 2009c80 bind values with quotes ended their literal, and numbers were quoted",
"property=C24 5765969 placeholders were looked for inside of literals and of values bound before, and $1 inside of $10",
"property=C25 c750536 the columns of every schema were listed as columns of information_schema.COLUMNS",
"property=C25 aef03df names with a quote, several tables and a missing database name gave a malformed query",
"property=C25 9aea81e the statement generated for several tables could not be read",
"property=C23 deba30c NaN and the infinities were bound as NaN, +Inf and -Inf, which are names",
"property=C10 ed82a98 a literal without a value was rendered as <nil>",
"property=C19 49316f0 groups around a NULL group were not ordered",
"property=C18 0467d0c a row refused by a set was aggregated by the aggregators before the one that refused it",
]
