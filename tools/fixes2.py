FIX.update({
 "integer addition, subtraction": ("C11", "0 - LONG_MIN and LONG_MIN combinations of + - * overflowed silently or were refused wrongly"),
 "integer division and modulo": ("C11", "n / 0, n % 0 and LONG_MIN / -1 killed the process"),
 "a text constant that failed to convert": ("C10", "a text constant that is no number changed its type while failing to convert"),
 "converting a float beyond": ("C10", "CAST of a float beyond the range of a long was undefined behaviour instead of an error"),
 "a negated equality was taken": ("C16", "NOT (a = b) was used as the hash join condition a = b"),
 "RIGHT read past the text": ("C13", "RIGHT with a count beyond the length read outside the text"),
 "SUBSTRING read outside": ("C13", "SUBSTRING with a position or length out of range read outside the text"),
 "RIGHT read before the start": ("C13", "RIGHT on text beginning with UTF-8 continuation bytes read before its start"),
 "REPLACE with a search text from a column": ("C13", "REPLACE whose search text comes from a record used it as terminated text"),
 "CASE without a matching branch": ("C12", "CASE with no matching branch and no ELSE left the previous value instead of NULL"),
})
FIX.update({
 "aggregates took NULL arguments": ("C20", "NULL arguments entered COUNT, MIN, MAX, SUM and AVG as zero or the previous record's value"),
 "grouping by a NULL function result": ("C21", "a key that is a function result of NULL took the key text of an earlier record"),
 "row number of a grouped record": ("C21", "ROW_NUMBER beside group keys shifted the columns of the group's records"),
})
FIX.update({
 "LEFT JOIN gives one row per match": ("C25", "LEFT JOIN with further ON conditions gave a NULL row for each failing match besides the matching ones, or none"),
 "fql_set_pipe_factor stored": ("C29", "fql_set_pipe_factor kept a value beyond the allowed range"),
 "hash join took a NULL key": ("C25", "a NULL join key matched zero or the text read before"),
 "UNION member with a WHERE clause": ("C26", "a UNION member with WHERE was freed while still linked"),
 "subquery source was not prepared": ("C26", "a subquery's UNION members and variables were not prepared on its first run"),
 "rows of a subquery lost NULL": ("C26", "NULL in a subquery's rows became empty text, and text of one row was overwritten by the next"),
 "outer query found the sources joined inside": ("C26", "a subquery made of a join hid the outer query's own sources"),
 "stepping an ORDER BY without rows": ("C22", "fql_step over an empty ordered result crashed; its temporary file stayed open"),
 "stepping TOP 0 with ORDER BY": ("C22", "SELECT TOP 0 ... ORDER BY gave a row"),
 "NULL came out of ORDER BY": ("C22", "NULL fields of an ordered result became empty text"),
 "ORDER BY took the columns of the first": ("C22", "rows of later UNION members were ordered and printed by the first member's columns"),
 "value of a scalar subquery was read": ("C22", "a scalar subquery with ORDER BY returned its value in the type of the ORDER BY expression"),
 "vec_resize_and_zero left": ("C01", "vec_resize_and_zero left old contents in place of zeroes when the storage already sufficed"),
 "DELETE and UPDATE through a join": ("C27", "DELETE and UPDATE through a join wrote records twice, lost them, or ignored WHERE in a cartesian plan"),
 "joins wrote into full pipes": ("C29", "rows of a cartesian join were lost in a full pipe when stepping, a join with a subquery made of a join ran out of records for ever or read past its buffer"),
 "ELSE and nested branches ran": ("C31", "ELSE blocks were skipped or run as well, nested IF/WHILE jumped to the wrong statement, a BEGIN...END outside any branch crashed"),
 "a statement after UPDATE or DELETE": ("C31", "a SELECT after UPDATE or DELETE in one script still read the old file"),
 "COUNT of no rows came out blank": ("C31", "SELECT COUNT(*) with no matching row gave a blank instead of 0"),
 "IN (SELECT ...) kept old values": ("C31", "the set of an IN subquery kept its values between runs, was keyed by the subquery's type, folded case of binary numbers and held NULL"),
 "a join with a subquery on its right": ("C31", "a loop re-running a join with a subquery on its right read the rows of the first pass"),
 "arithmetic in the condition of IF": ("C31", "IF @x * 2 = 4 failed with 'function not implemented'"),
 "DECLARE of an imported variable": ("C31", "re-declaring an imported variable set the type and size of the variable imported last"),
})
FIX.update({
 "a subquery inside an IN list": ("C18", "a scalar subquery as a member of an IN list was read before it had run"),
 "IN (SELECT TOP ... ORDER BY)": ("C18", "TOP was ignored in an ordered IN subquery"),
 "GROUP BY took different constants": ("C21", "expressions differing only in a constant's letter case or bytes, a CAST's type or a CASE's conditions were taken for the same group key"),
 "a join hashed by an expression over both": ("C25", "a join condition with a CASE over both tables, or a scalar subquery, was hashed by a value not yet known"),
 "conditions in a CASE of a UNION": ("C17", "a CASE in the second member of a UNION ALL crashed"),
 "a condition over a function without a type": ("C15", "a comparison of expressions without a type indexed a function table out of range"),
 "expressions inside an aggregate": ("C21", "an aggregate inside a function or arithmetic got no argument; the function got two"),
 "CASE x WHEN freed": ("C17", "CASE x WHEN with a computed operand shared and freed it twice, or compared a constant in place of it"),
})
FIX.update({
 "LIKE with a variable or subquery": ("C19", "LIKE @v and LIKE (SELECT ...) were always false"),
 "LIKE translated sets": ("C19", "LIKE: [^x] was taken literally, sets of an earlier record's pattern were reused, an unmatched bracket read freed memory or failed, % and _ did not match line breaks, $ matched before one, the regular expression leaked for every record"),
})
FIX.update({
 "a table variable was renamed": ("C31", "FROM @a JOIN @b: the variable's table was reached through a pointer into a vector that had moved"),
 "a scalar subquery whose first value was NULL": ("C26", "a scalar subquery giving NULL first accepted further rows; a NULL text was copied from uninitialised memory"),
 "a table in a directory that does not": ("C28", "FROM [nodir/t] ended the calling process"),
 "an output delimiter or terminator crashed": ("C23", "fql_set_out_delim/record_terminator with SET, IF or WHILE in the script dereferenced NULL; UPDATE and DELETE wrote header and rows with different delimiters"),
 "a file made without a header": ("C23", "a file made by SELECT INTO without a header lost its first record, or all columns but one, when read in the same script"),
 "an empty file of fixed width": ("C23", "an empty fixed-width file: munmap of nothing, descriptor leak, and read through the old mapping after the file became empty"),
 "ORDER BY on output of fixed width": ("C23", "ORDER BY with fixed-width output freed the temporary file's name twice"),
 "a failed statement left the temporary": ("C23", "a failed statement with fixed-width output left its temporary file and stream"),
 "reading a file of fixed width made": ("C23", "a fixed-width file made by SELECT INTO was read in the same script with record length 0, for ever"),
 "SELECT INTO with ORDER BY emptied": ("C24", "SELECT ... INTO f ... ORDER BY emptied f before the query ran and filled it only when the session ended"),
 "a failure to set up or write the temporary": ("C32", "the temporary file of a joined subquery could fail to open or fill and the statement went on with what was there"),
 "a joined subquery whose temporary": ("C32", "a joined subquery whose temporary file failed to be written was taken as read, giving too few rows and success"),
 "a failed SELECT INTO left an empty": ("C32", "SELECT INTO creates its destination when planned and left it, empty, when the statement failed"),
 "a fixed width file that could not": ("C32", "a fixed-width temporary file whose writes failed was renamed over the destination"),
 "a cartesian join with standard input": ("C33", "cartesian join with __STDIN used a reader whose mapping did not exist"),
 "first record of standard input": ("C33", "the first record read from __STDIN by a cartesian join lost its table"),
 "reading standard input a second": ("C33", "a second statement reading __STDIN dereferenced NULL"),
 "DELETE or UPDATE of a table that": ("C34", "DELETE z FROM t and UPDATE z ... FROM t dereferenced NULL"),
})
FIX.update({
 "__ROWNUM of a later": ("C35", "SELECT ... UNION ALL SELECT __ROWNUM counted the rows of the first member, so always gave 0"),
 "__ROWNUM beside": ("C35", "SELECT __ROWNUM ... GROUP BY was refused as not being in the group"),
 "whole records of several": ("C35", "GROUP BY a.__REC, b.__REC took both as the same group expression, and values came from the first table"),
 "reading a constant changed": ("C36", "a constant evaluated in another type kept it: a SELECT executed once gave FQL_STRING for an INT column when it was stepped through afterwards"),
 "API calls in another order": ("C36", "fql_field_count turned the SELECT into one that prints nothing; fql_step past the end or on another statement crashed; a SELECT stepped through printed nothing when a loop executed it; fql_reset in the middle leaked the fields and gave the next SELECT a stale field count"),
 "an imported value kept": ("C37", "fql_import_variable(\"v = a\") gave ' a', fql.h says 'a'"),
 "ORDER BY in a subquery of FROM": ("C34", "SELECT ... FROM (SELECT ... ORDER BY ...) x silently gave no rows; now refused"),
})
FIX.update({
 "JOIN did not match -0": ("C25", "a JOIN on fractions paired -0 with 0 only when run as a cartesian join"),
 "GROUP BY and DISTINCT kept -0": ("C21", "GROUP BY and DISTINCT on fractions made -0 and 0 two groups"),
 "the name of every table": ("C39", "each table named by a statement leaked a block"),
 "plan without a record pool": ("C39", "DELETE FROM t leaked the vector of record pools"),
 "the list of UNION was freed": ("C39", "a UNION stepped through, or without a header, leaked its list of members"),
 "the row count guessed": ("C39", "a hash join with an empty table leaked a record"),
 "strict mode let UPDATE": ("C37", "UPDATE t SET foo in strict mode took the first of two columns named foo, printing that the name is ambiguous"),
})
FIX.update({
 "an aggregate of no rows": ("C20", "SELECT COUNT(*) FROM t WHERE nothing lost its row with ORDER BY, HAVING, in a later member of UNION ALL or as a source, made one up with GROUP BY or TOP 0, and crashed with ORDER BY through the API; MAX of only NULLs was 0"),
})
