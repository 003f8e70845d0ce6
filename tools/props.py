I = ["inputs"]
H = ["histories"]
IH = ["inputs", "histories"]
S = ["schedules"]

prop("C01", "Vectors and bit arrays behave as the sequences their operations describe",
     "After any history of pushes, pops, insertions, erasures, appends, resizes, reservations, shrinks and clears, a vector holds exactly the elements, in order, that the same operations on an ideal list would leave, and every position or index handed out designates the element it should. A bit array returns for every index the value last written there and zero where nothing was written since it was sized. No operation reads or writes outside the storage it owns.",
     IH, "every history of operations, every element value, every element size, including those that force the storage to move",
     "The existing tests never call the vector with a reallocation in the middle of an operation, with element sizes other than a few, or check storage accesses; the state space is every history.",
     ["util/vec.c", "util/vec.h", "util/util.c"], [("growth by reallocation before insertion", "util/vec.c"), ("element copying by byte size", "util/vec.c")],
     ["the vector's size, elements and end position; bit values"],
     note="Any two operations (three in thorough) from any prefix of up to 4 pushed elements, compared with an ideal list.")
prop("C02", "Dynamic strings hold exactly the text written and stay terminated",
     "After any history of pushes, appends, assignments, clears and resizes, a string contains exactly the bytes those operations describe, reports their number as its length, and is followed by a terminator. A bounded source is never read beyond its bound or its first terminator. Replacing an occurrence of a search text rewrites exactly the non-overlapping occurrences found from the left, with or without letter case, and terminates for every search and replacement text.",
     IH, "every history of operations, every byte content of sources, every bound, every search and replacement text",
     "No existing test exercises the string module; bounds, missing terminators and self-overlapping search texts are unbounded in number.",
     ["util/stringy.c", "util/stringy.h", "util/stringview.c", "util/stringview.h"], [("terminator kept after every append", "util/stringy.c"), ("bounded scan of sources", "util/stringy.c"), ("replacement of occurrences", "util/stringy.c")],
     ["string text, length and terminator"],
     note="Compared with an ideal byte string.")
prop("C03", "Text comparison is a total order that agrees with key hashing in every mode",
     "In each of the four comparison modes (letter case significant or not, trailing blanks significant or not) comparing texts is reflexive, antisymmetric and transitive, gives the result of comparing the normalised texts byte by byte, and reads nothing outside either text. Texts that compare equal in a mode are the same key in that mode, and texts that do not are different keys.",
     I, "all pairs and triples of texts, all modes",
     "Order laws quantify over all triples; existing tests compare a handful of hash-map keys.",
     ["util/stringview.c", "util/util.c", "util/hashmap.c"], [("case folding and blank trimming before comparison", "util/stringview.c"), ("key normalisation before hashing", "util/hashmap.c")],
     ["sign of comparisons; identity of hash keys"],
     note="All strings up to 3 bytes (pairs) and 2 bytes (triples), 4 and 3 in thorough.")
prop("C04", "The hash map is a dictionary under every key mode and history",
     "Looking up a key gives the value most recently assigned to a key equal to it under the map's mode, and nothing if no equal key was ever assigned or the map was cleared since. The map's count is the number of distinct keys, and iterating its keys and values yields each entry once in insertion order. This holds through any growth of the map, and for sets of keys likewise.",
     IH, "every sequence of assignments, clears and lookups, every key, every mode, every initial size",
     "The 12 existing tests insert fixed keys; collisions, growth at the boundary, case and blank folding depend on key content and history.",
     ["util/hashmap.c", "util/hashmap.h"], [("open addressing with linear probing and rehash on growth", "util/hashmap.c"), ("stable value and key vectors", "util/hashmap.c")],
     ["return values of lookups; iteration order; count"],
     note="Sequences of up to 3 assignments (4 thorough) from a map so small that each forces growth.")
prop("C05", "Multi-valued and multi-part key maps keep every entry under its own key",
     "In a map from one key to many values, a lookup gives all the values added under an equal key, in the order they were added, and none added under another key. In a map whose keys are lists of texts, two lists are the same key exactly when they have equal parts position by position under the map's mode; a lookup gives the value most recently assigned to that list. Both hold through any growth of the map.",
     IH, "every sequence of additions, every key content and every split of the same text into parts",
     "Existing tests cover only one fixed multimap scenario and no clearing, case-insensitive or colliding composite keys.",
     ["util/hashmap.c", "util/hashmap.c"], [("value lists hanging off one slot", "util/hashmap.c"), ("hash over all parts and part-wise comparison", "util/hashmap.c")],
     ["values and their order per key"],
     note="Up to 3 additions (4 thorough), parts of up to 2 letters.")
prop("C06", "A bounded queue is first-in first-out and never loses or invents elements",
     "For one caller at a time, whatever the rotation of the buffer, the elements taken out of a bounded queue are the elements put in, in order, each once. Adding to a full queue and taking from an empty one report failure and change nothing; block transfers move exactly the number of elements they report, in order; reported counts of used and free places are exact. Peeking, looking ahead and iterating change nothing and show the true contents.",
     IH, "every rotation and fill level, every history of operations, every element value",
     "No existing test touches the queue; wrap-around cases depend on history and capacity.",
     ["util/fifo.c", "util/fifo.h"], [("ring buffer with one free slot", "util/fifo.c")],
     ["return values and contents of the queue"],
     note="Buffers of 2 to 5 slots, every rotation and fill level, any two or three operations.")
prop("C07", "The bounded queue is correct and live when shared between threads",
     "With several producers and a consumer running concurrently, every element put in is taken out exactly once and the elements of each producer come out in the order it put them in, for every interleaving. No schedule leaves a producer, a consumer or a thread waiting on either of two queues asleep for ever while the other side is able to proceed or has closed the queue, and after the last producer leaves the consumer gets everything still queued and then learns the queue is closed.",
     S, "every interleaving of producers, consumers and wake-ups",
     "Interleavings cannot be enumerated by running threads; no existing test uses the queue.",
     ["util/fifo.c", "util/fifo.h"], [("head and tail locks with two conditions", "util/fifo.c"), ("producer count as the open flag", "util/fifo.c")],
     ["values received; termination of every thread"],
     technique="bounded symbolic execution of all thread interleavings of the real code's LLVM IR with z3",
     note="One or two producers, one consumer, queues of 2 to 4 slots, all schedules with at most 2 preemptions and any number of blocking switches; sequential consistency.")
prop("C08", "Graph traversal reaches exactly the reachable nodes and ends, for every graph",
     "Traversing a directed graph from its roots yields every node reachable from a root, nothing else, and no node before a root or one of its predecessors, and then ends, whatever the shape of the graph (shared successors, several roots, cycles, both successors the same). Removing a node also removes every edge to it; merging one graph into another keeps every node and edge of both. None of this touches storage outside the graph.",
     ["inputs", "histories"], "every directed graph with up to two successors per node, any marking of roots",
     "No existing test uses the graph; the shapes are combinatorial.",
     ["util/dgraph.c", "util/dgraph.h"], [("breadth-first work queue", "util/dgraph.c"), ("derivation of roots", "util/dgraph.c")],
     ["order and multiplicity of visited nodes"],
     note="All graphs of up to 3 nodes and acyclic graphs of up to 4 (4 and 5 thorough).")
prop("C09", "Linked lists and packed buffers keep their contents through any history",
     "After any history of pushes, enqueues, pops, dequeues, removals, exports and re-imports, a linked list holds exactly the payloads an ideal double-ended list would, walks the same in both directions, and frees every node exactly once. A packed buffer of variable-length blocks returns for each index exactly the bytes stored there after any history of insertions, removals and resizes.",
     IH, "every history of operations, every payload",
     "No existing test covers either structure; the histories are unbounded.",
     ["util/node.c", "util/node.h", "util/flex.c", "util/flex.h"], [("doubly linked nodes", "util/node.c"), ("offset table into one buffer", "util/flex.c")],
     ["contents, order, live allocations"],
     note="Histories of 5 list operations (6 thorough) and 2 buffer operations (3 thorough).")
prop("C10", "Conversion between text and numbers is exact or refused, never garbage",
     "When text from a field, a whole record, a constant or a CAST is used as an integer, the outcome is the integer the text denotes, or an error if it denotes none or one outside the range of a long; the same text gives the same outcome wherever it stands, and the same text used as a float gives the double nearest to the number it denotes or an error. Integer to text gives the canonical decimal digits, and reading them back gives the integer again. Float to integer truncates when the result fits and is an error otherwise. A conversion reads nothing outside the text and a constant that fails to convert stays as it was.",
     I, "every text, every 64-bit integer, every double",
     "The number of texts and integers is unbounded; no existing test evaluates an expression.",
     ["lib/expression.c", "lib/field.c", "lib/field.h", "util/util.c", "lib/scalarfn.c"], [("field conversion to the wanted type", "lib/field.h"), ("checked string to number conversion", "util/util.c")],
     ["the value or error of an expression read as an integer, a float or text"],
     note="All texts of up to 3 bytes (5 thorough) and the texts around the limits of a long; all integers and doubles for int/float conversion; a window of integers for int to text.")
prop("C11", "Arithmetic and bit operators give the exact result or an error",
     "Addition, subtraction, multiplication, division, modulo, negation and the bit operators on integers give the mathematically exact result, or an error when that does not fit a long or when dividing by zero, for all operands; nothing traps or wraps silently. On floats the operators give the IEEE double result, an integer with a float is computed as floats, operators without a meaning for floats are refused, and plus on two texts concatenates them.",
     I, "all pairs of 64-bit integers and of doubles",
     "2^128 operand pairs; no existing test evaluates an operator.",
     ["lib/scalarfn.c", "lib/function.c", "lib/expression.c"], [("overflow tests before the machine operation", "lib/scalarfn.c"), ("choice of the operator by operand types", "lib/function.c")],
     ["value or error of an operator expression"],
     note="All operand pairs for plus, minus and bit operators; for times, divide and modulo every value of one operand against a table of 15 for the other; floats bit-exactly.")
prop("C12", "NULL propagates through expressions and is never taken for a value",
     "An operator or function with a NULL operand gives NULL, whether the NULL comes from a literal, from a source without a matching record or from a record too short to hold the column, whatever the other operand and at any nesting depth. A comparison with NULL is not true. IS NULL is true for NULL and only for it. ISNULL gives its second argument exactly when the first is NULL, and a CASE with no matching branch and no ELSE is NULL.",
     I, "every operator and function, every position and origin of the NULL, every other operand",
     "No existing test evaluates an expression; combinations of operator, position and origin are many.",
     ["lib/expression.c", "lib/scalarfn.c", "lib/scalarfn.c", "lib/logic.c", "lib/switchcase.c"], [("three-valued return of expression getters", "lib/expression.c"), ("NULL checks in operators and functions", "lib/scalarfn.c")],
     ["value, error or NULL of an expression; truth of a condition"],
     note="Negated comparisons with NULL are two-valued in this code base and left out.")
prop("C13", "Scalar text functions return the specified part of the text, in bounds",
     "LEN gives the number of characters (bytes in byte mode) without trailing blanks; LEFT, RIGHT and SUBSTRING give exactly the characters (or bytes) their count and position denote, clipped to the text, for every 64-bit count and position including negative, zero and huge ones; CAST to CHAR(n) gives exactly n places; REPLACE rewrites the non-overlapping occurrences. Invalid UTF-8 never makes a function read outside its text.",
     I, "every text, every count and position",
     "No existing test calls a scalar function; positions range over 64 bits and texts are unbounded.",
     ["lib/scalarfn.c", "util/util.c", "util/stringview.c"], [("character stepping in UTF-8", "lib/scalarfn.c"), ("clipping of position and length", "lib/scalarfn.c")],
     ["text or number returned"],
     note="Texts of up to 3 characters of 1 to 4 bytes (4 thorough), every 64-bit count and position.")
prop("C15", "Comparisons in conditions order values by type as documented",
     "The six comparison operators agree with the order of the values: integers and floats numerically, an integer with a float as floats, text with text by the text order ignoring letter case and trailing blanks, and text with a number numerically when the text is a number and as an error otherwise. Exactly one of less, equal and greater holds for two ordered values, and the other three operators are their complements; swapping the operands mirrors the result.",
     I, "all pairs of values of all type combinations",
     "No existing test evaluates a condition; pairs are unbounded.",
     ["lib/logic.c", "lib/expression.c", "util/stringview.c"], [("comparison chosen by common type", "lib/logic.c")],
     ["truth of a condition, or error"],
     note="All pairs of integers, doubles and mixtures; texts of up to 2 bytes (3 thorough).")
prop("C16", "Boolean conditions evaluate as written, and join conditions are sound",
     "A condition built of AND, OR and NOT over predicates has the truth value the connectives define for every truth assignment, and an error in a needed predicate is an error of the whole. A predicate is used to match records by key in a join only if the whole condition implies it, so no pair of records satisfying the condition is lost.",
     I, "every tree of connectives and every truth assignment",
     "No existing test evaluates a condition; trees and assignments are combinatorial.",
     ["lib/logic.c"], [("evaluation of logic groups", "lib/logic.c"), ("search for a condition usable by a hash join", "lib/logic.c")],
     ["truth value; the chosen join condition"],
     note="Every tree over up to 4 predicates.")
prop("C20", "Aggregates over a group compute exactly the aggregate of its records",
     "For any group of records, COUNT with an argument is the number of records whose argument is not NULL and COUNT(*) the number of records; MIN and MAX are the least and greatest non-NULL argument in the order of its type, SUM the sum and AVG the mean of the non-NULL arguments, whatever the order of the records and wherever the NULLs stand. A COUNT of no record or of only NULLs is 0 and any other aggregate of it is NULL; an aggregate query without GROUP BY always has one row, also when no record reaches it (HAVING, TOP, ORDER BY, UNION ALL and an enclosing query then treat that row as any other), and with GROUP BY one row for each group, so none for no record. An argument that cannot be evaluated, or a sum beyond a long, is an error rather than a wrong number.",
     I, "every sequence of argument values and NULLs",
     "No existing test evaluates an aggregate; value sequences are unbounded.",
     ["lib/aggregate.c", "lib/group.c", "lib/expression.c"], [("running aggregate per group", "lib/aggregate.c")],
     ["value of the aggregate expression for the group"],
     note="Groups of up to 3 records (4 thorough) of the aggregate itself; whole queries over 0 to 2 matching rows.")
prop("C21", "GROUP BY and DISTINCT partition the records by key",
     "Two records fall into the same group exactly when their key values are equal part by part (letter case and trailing blanks of texts ignored), whatever columns, functions, numbers or aggregates the select list mixes with the keys and in which order; groups come out in the order of their first record, each with its key values and its own count, and a group list used again after a reset remembers nothing of the earlier run. DISTINCT gives each combination of values once.",
     IH, "every list of records, every mixture of keys and aggregates",
     "No existing test groups anything; the partitions are combinatorial.",
     ["lib/group.c", "lib/schema.c", "lib/aggregate.c", "util/hashmap.c"], [("composite key per record, looked up in a map", "lib/group.c")],
     ["groups, their order, key values and counts"],
     note="Lists of up to 3 records (4 thorough) with up to two keys of up to 2 letters, and 24 whole statements over 3 rows. Keys differing only in NULL against empty or zero are left out.")

E2E = "Whole queries run from analysis through planning and execution over an in-memory file system; only ANTLR's parse tree walk is replaced by rt/sql.h, which calls the same analyser functions."
prop("C14", "SELECT gives exactly the rows satisfying WHERE, in input order, projected",
     "For any table, a SELECT with a WHERE clause yields, in the order of the input, one row for each record for which the condition is true and no other, and each row holds the values of the select list evaluated on that record: columns in any order and repetition, constants, computed expressions, and all columns in file order for an asterisk. TOP n yields the first n of these rows.",
     I, "every table content, every shape of condition and projection",
     "No existing test runs a query; the outcome depends on every cell.",
     ["lib/fqlprocesses.c", "lib/fqlselect.c", "lib/query.c", "lib/schema.c", "lib/fqlplan.c", "lib/process.c", "lib/libcsvread.c"], [("read, logic and select processes linked by fifos", "lib/fqlprocesses.c"), ("rows through the API", "lib/fqlselect.c")],
     ["rows and fields given by fql_step"], note="8 query shapes over a table of 3 rows of symbolic cells. " + E2E)
prop("C22", "ORDER BY sorts by its keys, with TOP taken from the sorted rows",
     "The rows of a query with ORDER BY are the rows it would yield without it, arranged so that each key is non-decreasing (non-increasing with DESC) among rows equal in the keys before it; integers and floats order numerically, texts by the text order; a key can be a column, an alias, an ordinal or an expression over columns not selected. TOP n keeps the first n of the sorted rows, TOP 0 none. NULL stays NULL, and no temporary file stays behind.",
     I, "every table content, every choice of keys and directions",
     "No existing test runs a query.",
     ["lib/order.c", "lib/fqlselect.c", "lib/fqlprocesses.c"], [("rows written to a temporary file, keys kept and sorted", "lib/order.c")],
     ["rows given by fql_step, and printed text"], note="18 query shapes, most with 3 rows. " + E2E)
prop("C23", "Files are read and written by the layout their schema describes",
     "A table named with a schema (schema.table, or the default schema of the handle) is read by it: the columns it names, from the first record on, delimited or, if it gives widths, cut at those positions from records of their summed width; a last incomplete record is ignored. 'default' means a header line. The result has the layout of the first source: delimited with or without a header, or fields padded to their widths (a longer value is an error), whatever the statement does with it; joins, unions and subqueries mix layouts freely. UPDATE and DELETE leave the file in its own layout and delimiter. A file made earlier in the script is read as it was written.",
     I, "every content, layout, combination of settings and statement",
     "The existing tests that use schemas do not run here; layout, settings and statement kinds combine freely.",
     ["lib/schema.c", "lib/fixedread.c", "lib/fixedwrite.c", "lib/libcsvread.c", "lib/fqlselect.c", "lib/fqlupdate.c", "lib/fqldelete.c", "lib/table.c"], [("columns, offsets and widths from the schema file", "lib/schema.c"), ("records cut out of the mapped file", "lib/fixedread.c"), ("padding and truncation", "lib/fixedwrite.c"), ("whether a header is written or skipped", "lib/fqlselect.c")],
     ["bytes printed", "bytes of every file", "return value of fql_exec"], note="31 statements over files without a header, 22 over files of fixed width. " + E2E)
prop("C24", "Query results are written as the text the settings describe",
     "Printed results and files made by SELECT INTO hold a header of the column names or aliases (unless headers are off and no schema is named) and one line per result row, fields in select-list order joined by the output delimiter (by default the delimiter of the first source) and lines ended by the record terminator; NULL is empty text. Successive statements print one after another. An existing file or table name is refused, and left as it was, unless overwriting is allowed; with it, it is replaced by the new result and not before it is complete, even if the query reads it. Tables named #x vanish with the script, no temporary file stays, and a later statement sees the new content.",
     I, "every content of the tables, every combination of settings, every destination",
     "The existing tests never run a statement; settings, destinations and clauses combine freely.",
     ["lib/libcsvwrite.c", "lib/writer.c", "lib/fqlselect.c", "lib/schema.c", "lib/operation.c", "lib/libfql.c"], [("header and delimiter of the output", "lib/schema.c"), ("record text of all or selected columns", "lib/libcsvwrite.c"), ("rename over the destination at the end", "lib/operation.c")],
     ["bytes printed", "bytes of every file in the scratch file system", "return value of fql_exec"], note="28 statements over a table of 3 rows and one of 2, four input delimiters, output delimiter, terminator, header and overwrite settings. Quoting belongs to libcsv and is left out. " + E2E)
prop("C25", "A join gives exactly the pairs of records that satisfy its condition",
     "An inner join of two or more sources yields every combination of their records that satisfies the ON conditions (and WHERE) exactly once, whether it is carried out by hashing or by trying all pairs; a left join yields in addition each left record without a match once, with NULL for the right side. A NULL key matches nothing. Texts match ignoring letter case and trailing blanks, numbers numerically.",
     I, "every content of the tables, every shape of condition, both join methods",
     "No existing test runs a join.",
     ["lib/fqlprocesses.c", "lib/fqlplan.c", "lib/logic.c", "lib/table.c", "lib/record.c", "util/hashmap.c"], [("hash of the right side probed by left records", "lib/fqlprocesses.c"), ("cartesian join rereading the right side", "lib/fqlprocesses.c"), ("reference-counted record copies", "lib/record.c")],
     ["rows given by fql_step"], note="Two tables of 2 rows in 18 query shapes and three tables of 2 rows. " + E2E)
prop("C26", "Subqueries and UNION ALL compose as if their result were a table",
     "A query over a subquery gives what it would give over a table holding the subquery's rows, whatever the subquery contains: conditions, joins, grouping, computed columns, UNION ALL, or further subqueries. A scalar subquery stands for its only value, is an error if it has more than one row, and is NULL if it has none. UNION ALL yields the rows of its members one member after another. NULL values pass through.",
     I, "every content of the tables, every nesting shape",
     "No existing test runs a query.",
     ["lib/subquery.c", "lib/fqlplan.c", "lib/fqlselect.c", "lib/query.c", "lib/record.c", "lib/fqlprocesses.c"], [("rows of a subquery handed on as records", "lib/subquery.c"), ("UNION members linked into one select process", "lib/fqlplan.c")],
     ["rows given by fql_step"], note="28 query shapes over two tables of 2 rows, nested up to depth 3. " + E2E)
prop("C27", "UPDATE and DELETE change exactly the records their condition selects",
     "After a DELETE the file holds its header and, in their order, exactly the records for which the condition was not true (through a join: that no combination satisfying ON and WHERE contains), byte for byte as they were. After an UPDATE each record for which it was true has the assigned columns replaced by the values computed from the record as it was before, and every other record and column is as it was. Other files are untouched and no temporary file remains.",
     I, "every content of the tables, every condition and assignment, both join methods",
     "No existing test runs a query; a lost or repeated record depends on the pattern of matches.",
     ["lib/fqldelete.c", "lib/fqlupdate.c", "lib/fqlprocesses.c", "lib/fqlplan.c", "lib/writer.c"], [("rewriting into a temporary file renamed over the original", "lib/writer.c"), ("marking records matched by a join", "lib/fqlprocesses.c")],
     ["content of the files afterwards"], note="17 statement shapes over a table of 3 rows joined with tables of 2 and 1. " + E2E)
prop("C28", "A table or schema name stands for exactly one file, by the documented rules",
     "A name means the file of that name; failing that one equal ignoring case; failing that one equal but for its extension; failing that one equal but for its extension and case. Several files under the first rule that has any are an error, as is none; in strict mode only the first rule counts. The directory part of the name is taken as given. A schema name is looked up by the same rules in the given schema path, then FQL_SCHEMA_PATH, then ~/.config/fql/schema, the first that has it deciding. An unresolved name makes the script fail with nothing run, printed or changed, and never ends the process.",
     I, "every set of files and every spelling",
     "No existing test has more than one candidate file.",
     ["lib/schema.c", "util/util.c"], [("four rules over the directory listing", "lib/schema.c"), ("order of the schema directories", "lib/schema.c")],
     ["which file's content is printed", "return value of fql_exec"], note="6 spellings against every subset of 8 files in two directories, strict and not, in both directory orders; a schema name in three directories with 6 sets of files each. " + E2E)
prop("C29", "The pipe factor never changes a result",
     "For any statement over tables of any size, the result is the same for every pipe factor and whether it is stepped or printed: no record is lost, repeated, overwritten before it was used or left waiting for a free record, however often the fixed supply of record objects has to be recycled while it runs.",
     IH, "every statement, table content, table size and factor",
     "No existing test runs a query; how the pipes fill and empty depends on sizes, matches and the factor together.",
     ["lib/fqlprocesses.c", "lib/process.c", "lib/fqlplan.c", "lib/record.c", "util/fifo.c"], [("fixed number of records handed round through root fifos", "lib/fqlplan.c"), ("bounded fifos between processes", "util/fifo.c")],
     ["rows given by fql_step, printed text, files"], note="16 statement shapes, tables of 6 to 150 rows whose keys are symbolic, factors 1, 2, 3 and the default. " + E2E)

prop("C17", "CASE gives the value of its first branch that holds",
     "A CASE with conditions has the value of the first WHEN whose condition is true, a CASE with an operand that of the first WHEN equal to the operand; without one it has the value of ELSE, and NULL when there is no ELSE. The operand stands for the same value in every comparison, only the branch taken is evaluated, and values come in the common type of all branches. This holds wherever an expression may stand: select list, WHERE, ON, GROUP BY, HAVING, ORDER BY, inside functions, aggregates, subqueries, UNION members, SET and IF, and nested.",
     I, "every table content, every shape of CASE in every clause",
     "No existing test evaluates a CASE; branches depend on every cell.",
     ["lib/switchcase.c", "lib/expression.c", "lib/query.c", "lib/schema.c", "lib/fqlplan.c"], [("branch conditions held in logic groups of the CASE", "lib/switchcase.c"), ("operand referenced by each WHEN", "lib/query.c")],
     ["rows given by fql_step, printed text, files"], note="32 statements over tables of 3 and 2 rows. " + E2E)
prop("C18", "IN and NOT IN are membership by comparison, whatever the list holds",
     "x IN (list) is true exactly when x equals one of the members under the comparison the condition = would use (numbers numerically, texts ignoring letter case and trailing blanks, in the common type of both sides), and NOT IN when it equals none. Members can be constants, columns, expressions, variables, scalar subqueries or the rows of one subquery, including none; duplicates and order do not matter, and TOP and ORDER BY in the subquery decide which rows count.",
     I, "every table content, every kind of list, in every clause",
     "No existing test evaluates IN; membership depends on every cell.",
     ["lib/logic.c", "lib/inlist.c", "lib/query.c", "lib/fqlplan.c", "lib/fqlselect.c"], [("set of values built once for lists of constants", "lib/logic.c"), ("rows of a subquery collected into a set", "lib/fqlselect.c")],
     ["rows given by fql_step, printed text, files"], note="25 statements over tables of 3 and 2 rows. " + E2E)

prop("C19", "LIKE matches exactly the texts its pattern describes",
     "text LIKE pattern is true exactly when the whole text matches the pattern: % stands for any sequence of characters including none and line breaks, _ for any one character, [set] and [a-z] for one character in the set or range, [^set] for one outside it, and every other character, including those special to regular expressions and brackets without a partner, for itself ignoring letter case. NOT LIKE is the opposite. This holds in every clause and whether the pattern is a constant, a variable, a subquery or a column whose pattern changes from record to record. A set with a reversed range is an error.",
     I, "every pattern, every text, in every clause",
     "No existing test of LIKE runs here; the original suite has one pattern. Patterns and texts are unbounded.",
     ["lib/like.c", "lib/logic.c", "lib/fqllogic.c"], [("translation of the pattern into a regular expression", "lib/like.c"), ("pattern compiled once or per record", "lib/logic.c")],
     ["truth of the condition; rows and files of whole statements"], note="Patterns of up to 2 arbitrary characters (3 thorough) and sets of up to 3, texts of up to 3 bytes of any value; 12 whole statements. PCRE2 itself is replaced by a small matcher (rt/pcre.h) that is compared with the real library on sampled paths. Ranges between letters of different case and characters of several bytes are left out.")

prop("C31", "Scripts run the statements their control flow says, each on current data",
     "IF, ELSE, WHILE and BEGIN...END run exactly the statements the conditions select, in order, however they are nested; variables hold what was last declared or set (with the declared type and length, NULL until set, imported values as imported); and a statement that runs again in a loop, or after an UPDATE or DELETE in the same script, gives what a fresh run of it would give.",
     IH, "every script, nesting and data",
     "The existing tests never execute a statement; a loop or branch is a history of states, and what is left over from one pass shows only in the next.",
     ["lib/query.c", "lib/fqlbranch.c", "lib/fqlset.c", "lib/variable.c", "lib/scope.c", "lib/libfql.c", "lib/subquery.c", "lib/schema.c"], [("next/true/false statement indices of a branch", "lib/query.c"), ("reset of operation, readers, groups and joins before each run", "lib/query.c"), ("variable type, limit and import value", "lib/variable.c")],
     ["printed text of the whole script", "return value of fql_exec"], note="40 scripts over symbolic start values and tables. " + E2E)

prop("C32", "A statement that fails leaves every file as it was",
     "When an operation on files fails at any moment of a statement (a file cannot be opened, mapped, created, written to, closed or renamed, a disk is full), or a value makes it fail, the statement reports failure, every file that existed before has its old content, no file is left behind or left empty in the place of a destination, and nothing stays open. If all operations succeed, or the failure is one the statement does not depend on, it reports success and the destination holds all of its result; success is never reported for a result that is not in the file.",
     IH, "every statement that reads or writes files, every moment of failure, every table content",
     "No existing test writes a file, let alone on a disk that fails; each moment of failure is a different history.",
     ["lib/order.c", "lib/operation.c", "lib/fixedwrite.c", "lib/fqlselect.c", "lib/fqldelete.c", "lib/fqlupdate.c", "lib/fqlsig.c", "lib/libcsvwrite.c"],
     [("output goes to a temporary file that is renamed over the destination on success", "lib/operation.c"), ("temporary files are removed on failure", "lib/fqlsig.c")],
     ["files afterwards", "return value of fql_exec", "open files"], note="22 statements; the k-th operation on files fails, for every k (symbolic), over symbolic tables. A crash of the process or machine is outside. " + E2E)
prop("C33", "Standard input is a table like any other",
     "A statement that reads __STDIN gives the result it would give over a file of the same content: in the select list, WHERE, joins of either kind on either side, groups, order, unions, subqueries and as source of SELECT INTO. Used where records must be read again it is kept aside first, and using it twice is either refused or gives the same content again, never a crash or a table cut short. A failure to keep it aside makes the statement fail.",
     I, "every content of standard input, every place a table may stand",
     "No existing test feeds standard input; which records are read again depends on the plan and the data.",
     ["lib/reader.c", "lib/libcsvread.c", "lib/fqlplan.c", "lib/schema.c", "lib/fqlprocesses.c"],
     [("copy of standard input in a temporary file", "lib/libcsvread.c"), ("first record kept with its table", "lib/schema.c")],
     ["printed text", "files", "return value of fql_exec"], note="30 statements over symbolic input of up to 3 records. " + E2E)
prop("C34", "A statement that means nothing, or meets a value it cannot use, is refused whole",
     "A script naming a column, table, alias or variable that does not exist, an ambiguous one, a subquery or union of the wrong width, a column outside the group, a position outside the select list, a second declaration, an aggregate where none can stand, or the like, is refused: fql_exec gives FQL_FAIL, no statement of the script runs, nothing is printed or written and no file is created. A value that does not convert (text where a number is needed, division by zero, a scalar subquery of several rows) makes the statement that evaluates it fail, never yields a wrong value, and leaves every file as it was. After fql_reset the same handle runs the next script as a new one would.",
     IH, "every script that is refused and every table content",
     "The existing tests run no statement; each refusal leaves a different half-built plan behind.",
     ["lib/query.c", "lib/fqlplan.c", "lib/schema.c", "lib/expression.c", "lib/libfql.c", "lib/operation.c"],
     [("columns, types and plans resolved for the whole script before anything runs", "lib/schema.c"), ("error of a process ends the plan", "lib/fqlplan.c")],
     ["return value of fql_exec", "printed text and files", "the next script on the same handle"], note="64 scripts that cannot be planned and 20 that fail while they run, over symbolic cells that do and do not convert. What the ANTLR parser refuses is outside. " + E2E)
prop("C35", "The built-in names __REC, __ROWNUM, __LF, __CR and __CRLF mean what they say",
     "__REC (of one table, or qualified) is the text of the whole record as it was read, NULL where a LEFT JOIN found none, and can stand wherever a text column can: select list, functions, WHERE, LIKE, IN, JOIN conditions, GROUP BY, DISTINCT, aggregates, ORDER BY, subqueries, UPDATE; two tables' records are two things. __ROWNUM in a select list or SET counts the rows the statement (or the member of a UNION, or the group) gives, from 1, before any ORDER BY, and starts anew when the statement runs again. __LF, __CR and __CRLF are the line endings. Letter case of the names does not matter; __REC with several tables and no qualifier is refused.",
     I, "every statement and table content",
     "No existing test evaluates them.",
     ["lib/query.c", "lib/expression.c", "lib/schema.c", "lib/fqlselect.c", "lib/group.c"], [("built-in names become expressions of their own", "lib/query.c"), ("row counter of the operation", "lib/fqlselect.c")],
     ["rows given by fql_step, printed text, files"], note="43 statements over tables of 3 and 2 rows; __ROWNUM in WHERE, ON, HAVING and aggregates is outside. " + E2E)
prop("C36", "A script run piece by piece through the API runs as it would at once",
     "However fql_exec_plans, fql_exec_until_select, fql_field_count, fql_step, fql_get_operation_type, fql_exec_all_plans and fql_reset are mixed after fql_make_plans, every statement runs once, in order, with the effect and output it has under fql_exec. fql_step gives each row of the SELECT at hand once, in the types of its columns, then 0; on anything but a SELECT it fails and runs nothing; past the end it gives 0. fql_field_count gives the number of fields and changes nothing. A SELECT that is being stepped through is not executed beside. A statement a loop comes back to can be stepped through one time and executed the next. fql_reset ends everything, at any point, and leaves nothing open.",
     IH, "every sequence of calls, every table content",
     "The one API test reads one table in one fixed order of calls; the state a call leaves behind shows only in the next ones.",
     ["lib/libfql.c", "lib/fqlselect.c", "lib/order.c", "lib/expression.c"], [("select connected to the caller's fields for as long as it is stepped through", "lib/libfql.c"), ("statement index and reset at the end", "lib/libfql.c")],
     ["values returned", "fields", "printed text and files"], note="All sequences of 3 calls (4 in the thorough tier) out of 8 from each point of a script of 6 statements; loops of 3 turns, each stepped or executed. " + E2E)
prop("C37", "A setting does what its description says, and nothing else",
     "fql_set_dry_run plans and does nothing. Verbosity, print-plan, stable and pipe factor change nothing in what is printed. fql_set_out_std ALL puts every field and column name in double quotes, the others do not; fql_set_in_std NONE keeps quotes as text, the others take them off; an unknown name is refused and the old choice stays. Strict mode refuses a name two columns share (without it the first is taken), a file named other than exactly, and text where a number belongs. Loose groups give the first row of each group. Byte mode makes text functions count bytes. An imported variable has the value its assignment writes. Overwrite decides whether SELECT INTO may replace a file; cartesian mode changes no result. A setting holds until it is set again, and only for its handle.",
     I, "every value of every setting, every table content",
     "The existing tests set none of them but header and delimiter.",
     ["lib/libfql.c", "lib/reader.c", "lib/writer.c", "lib/schema.c", "lib/scalarfn.c", "lib/fqlplan.c", "lib/libcsvwrite.c"], [("properties of the handle", "lib/libfql.c"), ("quoting handed to the reader and writer", "lib/writer.c")],
     ["printed text and files", "rows given by fql_step", "values returned"], note="36 settings and statements. Quoting itself belongs to libcsv, replaced by a stand-in that quotes a field whole or not at all. " + E2E)
prop("C38", "Numbers with fractions keep kind and value in every clause",
     "A FLOAT (a constant with a point, a CAST, a variable, or arithmetic with one) stays a FLOAT with its value through select list, arithmetic with integers and numeric text, comparisons, IN (members and subqueries), MIN, MAX, SUM, AVG, GROUP BY, HAVING, DISTINCT, ORDER BY, CASE, UNION, JOIN keys, subqueries, variables and parameters; mixed with integers the common type is FLOAT, in a union or CASE for every row; put where an INT is declared it is cut toward zero. fql_step gives it as FQL_FLOAT, NULL as NULL, and the printed text reads back as the same number.",
     I, "every number, every clause",
     "No existing test evaluates a number with a fraction; each clause has code of its own per type.",
     ["lib/field.c", "lib/expression.c", "lib/aggregatefn.c", "lib/fqllogic.c", "lib/inlist.c", "lib/group.c", "lib/order.c", "lib/switchcase.c", "lib/fqlselect.c", "lib/variable.c"],
     [("common type of two expressions", "lib/field.c"), ("branches and union members converted to it", "lib/switchcase.c"), ("float keys of IN, GROUP BY and ORDER BY", "lib/inlist.c")],
     ["type and value of the fields fql_step gives", "printed text"], note="69 statements, 3 rows, numbers out of four binary fractions. Values that text of six decimals cannot hold are outside (floats pass through it between stages). " + E2E)
prop("C39", "A handle gives back the memory and files a script took",
     "However a script ends (run whole, stopped by an error while it runs, or stepped through for some rows and left by fql_reset), no file, mapping or directory stays open, and running it again on the same handle leaves no more memory allocated than running it once: a long-lived handle does not grow. Once fql_free returns, everything the handle ever allocated has been given back.",
     IH, "every accepted script, every table content, every point to leave it at",
     "Leaks change no result; no existing test looks at memory after a query.",
     ["lib/query.c", "lib/fqlplan.c", "lib/fqlselect.c", "lib/table.c", "lib/process.c", "lib/record.c", "lib/schema.c", "lib/expression.c", "lib/libfql.c"], [("one owner for each object of a query", "lib/query.c"), ("plan takes its processes and records with it", "lib/fqlplan.c")],
     ["heap blocks live before, between and after", "files open"], note="49 scripts, run twice on one handle, whole or left after 0, 1 or 2 rows of each SELECT. Scripts refused while they are read or planned are outside. " + E2E)
