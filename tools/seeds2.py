from mkseed import seed
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, *a, e2e=True, **k)
def demo(body): return '#include "kit.h"\nint main(void)\n{\n' + body + '\treturn done();\n}\n'

S("S13", "C20", [("lib/aggregatefn.c", """	    || stringview_compare_nocase_rtrim(&sv0, &sv1) > 0) {""",
"""	    || stringview_compare(&sv0, &sv1) > 0) {""")],
demo(r'''	put("t.csv", "k,a\n1,Zoe\n1,amy\n2,bob\n2,Carl\n");
	open_();
	rows("SELECT k, MAX(a) AS m FROM [t.csv] GROUP BY k", "1|Zoe\n2|Carl\n");
'''), "MAX over texts of which the greater one is in upper case and the lesser in lower case", "MAX of texts minds letter case, while comparisons and MIN do not")

S("S14", "C31", [("lib/group.c", """	compositemap_clear(&self->val_map);
	flex_clear(&self->group_data);

	self->_dump_idx = 0;
""", """	compositemap_clear(&self->val_map);
	flex_clear(&self->group_data);
	if (vec_empty(&self->aggregates)) {
		self->_dump_idx = 0;
	}
""")],
demo(r'''	put("t.csv", "k,a\n1,5\n1,6\n2,7\n");
	open_();
	ok("DECLARE @i INT = 0 WHILE @i < 2 BEGIN SELECT k, SUM(CAST(a AS INT)) AS s FROM [t.csv] GROUP BY k SET @i = @i + 1 END");
	printed("k,s\n1,11\n2,7\nk,s\n1,11\n2,7\n");
'''), "a statement with GROUP BY and aggregates that runs again in a WHILE loop", "from the second turn of the loop on the statement yields no groups")

S("S15", "C38", [("lib/order.c", """			double* num1 = flex_at(&orderby->order_data, idx1);
			ret = num_compare_(*num0, *num1);""", """			double* num1 = flex_at(&orderby->order_data, idx1);
			ret = (int)(*num0 - *num1);""")],
demo(r'''	put("t.csv", "a\n1.5\n1.25\n3.0\n1.75\n");
	open_();
	rows("SELECT CAST(a AS FLOAT) AS f FROM [t.csv] ORDER BY f", "1.25\n1.5\n1.75\n3\n");
'''), "float keys of ORDER BY that differ by less than one", "keys that differ only in the fraction count as equal when sorting")

S("S16", "C18", [("lib/fqllogic.c", """		if (!stringview_compare_nocase_rtrim(&sv0, &sv1)) {""",
"""		if (!stringview_compare_nocase(&sv0, &sv1)) {""")],
demo(r'''	put("t.csv", "a,b\nx ,1\nX,2\ny,3\n");
	open_();
	rows("SELECT b FROM [t.csv] WHERE a IN ('x','z')", "1\n2\n");
	rows("SELECT b FROM [t.csv] WHERE a NOT IN ('x','z')", "3\n");
'''), "a text with a trailing blank looked for in a written list", "IN finds x but not x with a blank behind it, though = does")

S("S17", "C27", [("lib/fqlprocesses.c", """		if (rec->rec_idx > update->update_idx) {
			break;
		}
		try_(update->update__(update, *rg_iter));""", """		if (rec->rec_idx > update->update_idx + 1) {
			break;
		}
		try_(update->update__(update, *rg_iter));""")],
demo(r'''	put("t.csv", "k,a\n1,p\n0,q\n1,r\n0,s\n1,t\n");
	open_();
	ok("UPDATE t SET a = 'X' FROM [t.csv] t WHERE k = '1'");
	file("t.csv", "k,a\n1,X\n0,q\n1,X\n0,s\n1,X\n");
	put("u.csv", "k,a\n0,p\n1,q\n1,r\n0,s\n");
	ok("UPDATE u SET a = 'X' FROM [u.csv] u WHERE k = '1'");
	file("u.csv", "k,a\n0,p\n1,X\n1,X\n0,s\n");
'''), "UPDATE with WHERE over changed and unchanged records that alternate, so that both queues wait for each other", "updated records overtake unchanged ones and the file comes out in another order")

S("S18", "C25", [("lib/fqlprocesses.c", """	if (hj->rec_idx >= hj->recs->size) {
		hj->recs = NULL;
	}
""", """	if (hj->rec_idx >= hj->recs->size || hj->rec_idx > 2) {
		hj->recs = NULL;
	}
""")],
demo(r'''	put("t.csv", "a,b\n1,x\n2,y\n");
	put("u.csv", "c,d\n1,p\n1,q\n1,r\n1,s\n2,t\n");
	open_();
	rows("SELECT b, d FROM [t.csv] JOIN [u.csv] ON a = c", "x|p\nx|q\nx|r\nx|s\ny|t\n");
'''), "a record of the left with more than three partners in a hash join", "the partners after the third are dropped")

S("S19", "C17", [("lib/switchcase.c", """	for (; it != vec_end(&self->tests); ++it, ++i) {
		switch (logicgroup_eval(*it, rg, NULL)) {
		case 1:
			return i;
			break;
		case FQL_FAIL:
			return FQL_FAIL;
		default:;
		}
	}
""", """	int found = -1;
	for (; it != vec_end(&self->tests); ++it, ++i) {
		switch (logicgroup_eval(*it, rg, NULL)) {
		case 1:
			found = (int)i;
			break;
		case FQL_FAIL:
			return FQL_FAIL;
		default:;
		}
		if (found == 0) {
			return found;
		}
	}
	if (found != -1) {
		return found;
	}
""")],
demo(r'''	put("t.csv", "a\n1\n2\n3\n4\n");
	open_();
	rows("SELECT CASE WHEN CAST(a AS INT) > 3 THEN 'p' WHEN CAST(a AS INT) > 2 THEN 'q' WHEN CAST(a AS INT) > 1 THEN 'r' ELSE 's' END AS c FROM [t.csv]", "s\nr\nq\np\n");
'''), "a CASE of which the second and a later branch both hold", "the last branch that holds wins over the second")

S("S20", "C27", [("lib/libcsvwrite.c", """			len += csv_write_field(handle, &field);
			handle->quotes = quote_store;
""", """			len += csv_write_field(handle, &field);
			if (i + 1 < expr_vec->size) {
				handle->quotes = quote_store;
			}
""")],
demo(r"""	put("t.csv", "k,a\n0,p\n1,q\n0,r\n");
	open_();
	fql_set_out_std(H, "ALL");
	ok("UPDATE t SET a = 'x' FROM [t.csv] t WHERE k = '1'");
	file("t.csv", "\"k\",\"a\"\n0,p\n\"1\",\"x\"\n0,r\n");
"""), "UPDATE of a record behind one that is not updated, with values that need quotes (or quotes asked for)", "the new values are written without quotes")

S("S21", "C23", [("lib/fixedwrite.c", """			if (width < sv.len) {""", """			if (width + 1 < sv.len) {""")],
demo(r"""	put("s/fx", "id,1,char\nname,2,char\nn,1,char\n");
	put("f.dat", "aab1bbb2c  3");
	open_();
	fql_set_schema_path(H, "s");
	fails("UPDATE x SET name = 'www' FROM fx.f AS x WHERE n = '2'");
	file("f.dat", "aab1bbb2c  3");
"""), "a text one byte too long for its column in a table of fixed widths", "the record comes out longer than its layout instead of the value being refused")

S("S22", "C35", [("lib/fqlupdate.c", """	++self->rownum;
	return self->writer->write_record__(self->writer,
	                                    &self->update_expressions,""", """	self->rownum = self->update_idx + 1;
	return self->writer->write_record__(self->writer,
	                                    &self->update_expressions,""")],
demo(r"""	put("t.csv", "k,a\n0,p\n1,q\n1,r\n");
	open_();
	ok("UPDATE t SET a = __ROWNUM FROM [t.csv] t WHERE k = '1'");
	file("t.csv", "k,a\n0,p\n1,1\n1,2\n");
"""), "__ROWNUM in an UPDATE that leaves some record before the updated ones as it is", "__ROWNUM counts all records of the table, not the updated ones")

S("S23", "C31", [("lib/fqlprocesses.c", """		if (var->value.i) {
			var->value.i = 1;
		}
		break;
	case SQL_FLOAT:""", """		if (var->value.i > 0) {
			var->value.i = 1;
		}
		break;
	case SQL_FLOAT:""")],
demo(r"""	put("t.csv", "a\n1\n");
	open_();
	ok("DECLARE @b BIT = -2 SELECT @b AS b");
	printed("b\n1\n");
"""), "a BIT variable set to a negative number", "the variable keeps the number instead of 1")

S("S24", "C28", [("lib/schema.c", """	if (matches) {
		ret = (matches > 1) ? FUZZY_AMBIGUOUS : FUZZY_SUCCESS;
	}

fuzzy_file_match_return:""", """	if (matches) {
		ret = FUZZY_SUCCESS;
	}

fuzzy_file_match_return:""")],
demo(r"""	put("Tab.csv", "a\n1\n");
	put("tAb.txt", "a\n2\n");
	open_();
	fails("SELECT a FROM [tab]");
"""), "two files that fit the name only without extension and without regard to case", "one of the files is taken instead of refusing the name as ambiguous")

S("S25", "C16", [("lib/logic.c", """	ret = logic_can_be_false(self->items[0], check_logic);

	/* Check for short circuit */
	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {""", """	ret = logic_can_be_false(self->items[0], check_logic);

	/* Check for short circuit */
	if (self->type == LG_AND && !ret) {""")],
demo(r"""	put("t.csv", "a,b\n1,x\n2,y\n");
	put("u.csv", "c,d\n1,p\n2,q\n");
	open_();
	rows("SELECT b, d FROM [t.csv] JOIN [u.csv] ON b = 'x' OR a = c", "x|p\nx|q\ny|q\n");
"""), "a join whose condition is an OR with the comparison of the two sides on the right", "the comparison is taken for one that must hold and pairs that satisfy the other side of OR are lost")

S("S26", "C26", [("lib/fqlselect.c", """	self->_union_node = self->_union_node->next;
	self->rows_affected = 0;
""", """	self->_union_node = self->_union_node->next;
	if (self->current_select->top_count == (size_t)-1) {
		self->rows_affected = 0;
	}
""")],
demo(r"""	put("t.csv", "a\n1\n2\n3\n");
	open_();
	rows("SELECT a FROM [t.csv] WHERE a < '3' UNION ALL SELECT TOP 3 a FROM [t.csv]", "1\n2\n1\n2\n3\n");
"""), "TOP in a later SELECT of a UNION ALL", "rows of the SELECTs before count towards TOP")

S("S27", "C33", [("lib/libcsvread.c", """		rec->offset = ftello(self->random_access_file);
		fwrite(rec->rec_ref.data, 1, rec->rec_ref.len, self->random_access_file);
		fputc('\\n', self->random_access_file);""", """		rec->offset = csv->offset - rec->rec_ref.len - 1;
		fwrite(rec->rec_ref.data, 1, rec->rec_ref.len, self->random_access_file);
		fputc('\\n', self->random_access_file);""")],
demo(r"""	put("t.csv", "a,b\n1,x\n2,y\n");
	vfs_stdin("c,d\r\n2,q\r\n1,p\r\n", 15);
	open_();
	fql_set_allow_stdin(H, 1);
	rows("SELECT b, d FROM [t.csv] JOIN __STDIN ON a = c", "x|p\ny|q\n");
"""), "standard input as the right side of a join", "the records are looked up at a wrong place of the copy kept of the input")

S("S28", "C20", [("lib/group.c", """	if (idx_ptr == NULL) {
		compositemap_set(&self->val_map, &self->_composite, &group_count);
		try_(_add_agg_result(self, rg));
		ret = 1;
	} else {
		flex_resize(&self->group_data, org_size);
		try_(_update_agg_result(self, rg, *idx_ptr));
	}""", """	if (idx_ptr == NULL) {
		compositemap_set(&self->val_map, &self->_composite, &group_count);
		try_(_add_agg_result(self, rg));
		ret = 1;
	} else {
		flex_resize(&self->group_data, org_size);
		try_(_update_agg_result(self, rg, *idx_ptr & 0xff));
	}""")],
demo(r"""	char t[8192], w[8192]; int n = sprintf(t, "k,a\n"), m = 0;
	for (int r = 0; r < 2; ++r) for (int i = 0; i < 300; ++i) n += sprintf(t + n, "%d,1\n", i);
	for (int i = 0; i < 300; ++i) m += sprintf(w + m, "%d|2\n", i);
	put("t.csv", t);
	open_();
	rows("SELECT k, SUM(CAST(a AS INT)) AS s FROM [t.csv] GROUP BY k", w);
"""), "more than 256 groups of which a later one gets another record", "the record is added to another group")

S("S29", "C13", [("lib/scalarfn.c", """	while (ret->s->size < (unsigned)len) {
		string_push_back(ret->s, ' ');
	}""", """	while (ret->s->size < (unsigned)len && ret->s->size != 0) {
		string_push_back(ret->s, ' ');
	}""")],
demo(r"""	put("t.csv", "a\nx\n\n");
	open_();
	rows("SELECT CAST(b AS CHAR(2)) + '|' AS c FROM (SELECT SUBSTRING(a, 2, 1) AS b FROM [t.csv] WHERE a = 'x') q", "  |\n");
"""), "CAST of an empty text to CHAR(n)", "the text stays empty instead of being filled with blanks")

S("S30", "C12", [("lib/scalarfn.c", """	try_deref_(expression_get_int(&ret->i, *arg, rg));
	if (ret->i) {
		ret->i = 1;
	}
	return FQL_GOOD;""", """	try_(expression_get_int(&ret->i, *arg, rg));
	ret->i = (ret->i != 0);
	return FQL_GOOD;""")],
demo(r"""	put("t.csv", "a\n1\n2\n");
	open_();
	rows("SELECT CAST(NULL AS BIT) AS b FROM [t.csv]", "~\n~\n");
	rows("SELECT CAST(CASE WHEN a = '1' THEN 5 END AS BIT) AS b FROM [t.csv]", "1\n~\n");
"""), "CAST of a NULL to BIT", "the NULL becomes 0")

S("S31", "C34", [("lib/fqlupdate.c", """		if (!(*match_expr)->is_passthrough) {""", """		if (!(*match_expr)->is_passthrough && i > 1) {""")],
demo(r"""	put("t.csv", "a,b\n1,x\n");
	open_();
	fails("UPDATE t SET a = 'p', a = 'q' FROM [t.csv] t");
	file("t.csv", "a,b\n1,x\n");
"""), "an UPDATE that sets one column twice, as its first two", "the second value is taken instead of refusing the statement")

S("S32", "C29", [("lib/fqlprocesses.c", """		case 0:
		default:
			fqlprocess_recycle(proc, rg_iter);
		}

		rg_iter = fifo_iter(in);
		if (!fifo_receivable(out)) {
			ret = PROC_RETURN_WAIT_ON_OUT0;
			break;
		}""", """		case 0:
		default:
			fqlprocess_recycle(proc, rg_iter);
		}

		rg_iter = fifo_iter(in);
		bool is_full = !fifo_receivable(out);
		if (is_full && rg_iter != fifo_end(in)
		    && group_record(group, *rg_iter) == 0) {
			fqlprocess_recycle(proc, rg_iter);
		}
		if (is_full) {
			ret = PROC_RETURN_WAIT_ON_OUT0;
			break;
		}""")],
demo(r"""	char t[8192], w[8192]; int n = sprintf(t, "a\n"), m = 0;
	for (int i = 0; i < 300; ++i) n += sprintf(t + n, "%d\n", i), m += sprintf(w + m, "%d\n", i);
	put("t.csv", t);
	open_();
	fql_set_pipe_factor(H, 1);
	rows("SELECT DISTINCT a FROM [t.csv]", w);
"""), "DISTINCT over so many rows that the queue behind it fills up", "the row that was next when the queue was full counts as seen and is dropped")

S("S33", "C22", [("lib/order.c", """			ret = num_compare_(*num0, *num1);
			break;
		}
		case FIELD_FLOAT: {""", """			ret = (int)(*num0 - *num1);
			break;
		}
		case FIELD_FLOAT: {""")],
demo(r"""	put("t.csv", "a\n5000000000\n1\n-3000000000\n4294967297\n");
	open_();
	rows("SELECT a FROM [t.csv] ORDER BY CAST(a AS INT)", "-3000000000\n1\n4294967297\n5000000000\n");
"""), "numeric keys of ORDER BY that differ by more than an int holds", "keys are ordered by the low half of their difference")

S("S34", "C24", [("lib/libcsvwrite.c", """			len += delim.len;""", """			++len;""")],
demo(r"""	put("t.csv", "a,b\n2,y\n1,x\n");
	open_();
	fql_set_out_delim(H, "||");
	ok("SELECT a, b FROM [t.csv] ORDER BY a");
	printed("a||b\n1||x\n2||y\n");
"""), "an output delimiter of several characters together with ORDER BY", "each sorted record loses its end")

S("S35", "C36", [("lib/libfql.c", """		if (*current_op == FQL_SELECT && current_query->into_table_name == NULL) {
			break;""", """		if (*current_op == FQL_SELECT) {
			break;""")],
demo(r"""	put("t.csv", "a\n1\n2\n");
	open_();
	if (fql_make_plans(H, "SELECT a INTO [u.csv] FROM [t.csv] WHERE a = '2' SELECT a FROM [t.csv]") < 0) return 1;
	if (fql_exec_until_select(H) != 1) bad = 1;
	file("u.csv", "a\n2\n");
"""), "a SELECT INTO before the SELECT that is to be stepped through", "the script stops at the SELECT INTO, which cannot be stepped through")

S("S36", "C37", [("lib/libfql.c", """		fql->props.rec_terminator[0] = '\\n';
		fql->props.rec_terminator[1] = '\\0';
	}
}""", """		fql->props.rec_terminator[0] = '\\n';
		fql->props.rec_terminator[2] = '\\0';
	}
}""")],
demo(r"""	put("t.csv", "a\n1\n2\n");
	open_();
	fql_set_crlf_output(H, 1);
	fql_set_crlf_output(H, 0);
	ok("SELECT a FROM [t.csv]");
	printed("a\n1\n2\n");
"""), "CRLF output turned on and off again", "every record ends in two line feeds")

S("S39", "C19", [("lib/fqllogic.c", """	if (match_ret < 0) {
		return false;
	}
	return true;""", """	if (match_ret < 0 || sv0.len == 0) {
		return false;
	}
	return true;""")],
demo(r"""	put("t.csv", "a,b\n,1\nx,2\n");
	open_();
	rows("SELECT b FROM [t.csv] WHERE a LIKE '%'", "1\n2\n");
	rows("SELECT b FROM [t.csv] WHERE a NOT LIKE '%'", "");
"""), "an empty text matched against a pattern that may be empty", "an empty text never matches")

S("S40", "C10", [("lib/field.c", """		*type = FIELD_INT;
		field->i = (long)field->f;
		break;""", """		*type = FIELD_INT;
		field->i = (int)field->f;
		break;""")],
demo(r"""	put("t.csv", "a\n1\n");
	open_();
	rows("SELECT CAST(3000000000.5 AS INT) AS b FROM [t.csv]", "3000000000\n");
"""), "a number with a fraction beyond what an int holds, cast to an integer", "garbage is taken for the number")

S("S42", "C24", [("lib/operation.c", """	vec_erase_at(expr_vec, aster_idx, 1);
	--(*expr_idx);""", """	vec_erase_at(expr_vec, aster_idx, 1);""")],
demo(r"""	put("t.csv", "a,b\n1,x\n"); put("u.csv", "a,c\n1,y\n");
	open_();
	fql_set_out_delim(H, "|");
	rows("SELECT t.*, u.* FROM [t.csv] t JOIN [u.csv] u ON t.a = u.a", "1|x|1|y\n");
	ok("SELECT t.*, u.* FROM [t.csv] t JOIN [u.csv] u ON t.a = u.a");
	printed("a|b|a|c\n1|x|1|y\n");
"""), "two asterisks in a row", "the second one is printed as the raw record")

S("S43", "C15", [("lib/fqllogic.c", """	get_stringviews(sv0, sv1);
	return (stringview_compare_nocase_rtrim(&sv0, &sv1) <= 0);""", """	get_stringviews(sv0, sv1);
	return (stringview_compare_nocase(&sv0, &sv1) <= 0);""")],
demo(r"""	put("t.csv", "a\nx \nX\ny\n");
	open_();
	rows("SELECT a FROM [t.csv] WHERE a <= 'x'", "x \nX\n");
"""), "a text with a trailing blank compared by <=", "the blank counts")

S("S44", "C21", [("lib/group.c", """	compositemap_clear(&self->val_map);
	flex_clear(&self->group_data);

	self->_dump_idx = 0;""", """	compositemap_clear(&self->val_map);

	self->_dump_idx = 0;""")],
demo(r"""	put("t.csv", "a\n1\n2\n1\n");
	open_();
	ok("DECLARE @i INT = 0 WHILE @i < 2 BEGIN SET @i = @i + 1 SELECT a FROM [t.csv] WHERE a <> CAST(@i AS VARCHAR(2)) GROUP BY a END");
	printed("a\n2\na\n1\n");
"""), "a GROUP BY that runs again over other records", "the keys of the first run are given again")

S("S45", "C36", [("lib/libfql.c", """	if (ret == FQL_FAIL || fql->query_idx >= fql->query_vec->size) {
		fql_reset(fql);
	}

	return ret;
}

long fql_exec_until_select""", """	if (fql->query_idx >= fql->query_vec->size) {
		fql_reset(fql);
	}

	return ret;
}

long fql_exec_until_select""")],
demo(r"""	put("t.csv", "a\n1\nx\n"); put("u.csv", "a\n1\n");
	open_();
	struct fql_field* f;
	if (fql_make_plans(H, "SELECT CAST(a AS INT) FROM [t.csv] DELETE FROM [u.csv]") < 0) return 1;
	while (fql_step(H, &f) == 1) ;
	fql_exec_all_plans(H);
	file("u.csv", "a\n1\n");
"""), "a SELECT that fails while it is stepped through, with a statement behind it", "the rest of the script stays and runs")

S("S46", "C20", [("lib/aggregatefn.c", """	result->auxdata.i = overflow_safe_add_i(result->auxdata.i, num);
	result->data.i = result->auxdata.i / (result->qty + 1);""", """	result->data.i = overflow_safe_add_i(result->data.i * result->qty, num);
	result->data.i /= (result->qty + 1);""")],
demo(r"""	put("t.csv", "a\n1\n2\n2\n");
	open_();
	rows("SELECT AVG(CAST(a AS INT)) AS b FROM [t.csv]", "1\n");
	put("t.csv", "a\n1\n2\n5\n4\n");
	rows("SELECT AVG(CAST(a AS INT)) AS b FROM [t.csv]", "3\n");
"""), "AVG over whole numbers whose running average is not whole", "the fractions dropped on the way add up")

S("S48", "C34", [("lib/order.c", """			if (ordinal <= 0 || ordinal > (int)select_exprs->size) {""", """			if (ordinal <= 0 || (int)ordinal > (int)select_exprs->size) {""")],
demo(r"""	put("t.csv", "a\n3\n1\n2\n");
	open_();
	fails("SELECT a FROM [t.csv] ORDER BY 4294967296");
	fails("SELECT a FROM [t.csv] ORDER BY 8589934592");
"""), "an ordinal in ORDER BY beyond what an int holds", "some other memory is taken for a column")

S("S50", "C31", [("lib/scope.c", """	for (; it && idx == NULL; it = it->parent_scope) {
		idx = hashmap_get(&it->variable_map, varname);
	}""", """	for (; it; it = it->parent_scope) {
		int* found = hashmap_get(&it->variable_map, varname);
		idx = (found != NULL) ? found : idx;
	}""")],
demo(r"""	put("t.csv", "a\n1\n2\n");
	open_();
	ok("DECLARE @a INT = 1 IF 1 = 1 BEGIN DECLARE @a INT = 2 SET @a = 3 END SELECT @a AS b");
	printed("b\n1\n");
"""), "a variable declared again in a block of its own", "the outer variable of the name is changed")

S("S51", "C13", [("lib/scalarfn.c", """	for (; idx >= 0 && char_count < n; ++char_count) {
		int bytes = try_(_get_rev_byte_count(&sv.data[idx], idx + 1));
		byte_count += bytes;
		idx -= bytes;
	}""", """	for (; idx > 0 && char_count < n; ++char_count) {
		int bytes = try_(_get_rev_byte_count(&sv.data[idx], idx + 1));
		byte_count += bytes;
		idx -= bytes;
	}""")],
demo(r"""	put("t.csv", "a\nabc\n");
	open_();
	rows("SELECT RIGHT(a, 3) AS b FROM [t.csv]", "abc\n");
"""), "RIGHT of as many characters as there are, the first of them one byte", "the first character is lost")

S("S52", "C17", [("lib/switchcase.c", """	if (self->values.size > self->tests.size) {
		return self->values.size - 1;
	}""", """	if (self->values.size == self->tests.size + 1 && self->tests.size < 2) {
		return self->values.size - 1;
	}""")],
demo(r"""	put("t.csv", "a\n1\n2\n3\n");
	open_();
	rows("SELECT CASE WHEN a = '1' THEN 'x' WHEN a = '2' THEN 'y' ELSE 'z' END AS b FROM [t.csv]", "x\ny\nz\n");
"""), "a CASE of two branches with an ELSE", "the ELSE is not found")
