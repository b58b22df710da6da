package main

import (
	"fmt"
	"go/types"
	"strings"
)

const sysPkg = "sql/system"

func init() {
	register("C25", func(r *Run) {
		e := r.e
		r.rule("evaluate the constructors of information-schema statements, columns and result sets on arbitrary and on quote-bearing names, in every shape of up to three tables: the generated SELECT asks for exactly these names, reading it gives the names back, anything else is refused, and the columns of schemas survive the way through a result set")
		esc := func(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }
		stT := func(x *X) types.Type { return x.typ(sysPkg, "SchemaColumnsStatement") }
		selT := func(x *X) types.Type { return x.typ(qryPkg, "Select") }
		where := func(x *X) string { return x.pos(sysPkg, "NewSchemaColumnsStatement") }
		read := func(x *X, key string, sel *T, db *T, tbls []*T) {
			v := x.fn(sysPkg, "NewSchemaColumnsStatement", x.slice(x.fn(sysPkg, "WithSchemaColumnsStatementSelect", sel)))
			x.holds(key+" accepted", where(x), x.isNil(x.at(v, 1)), "the statement is read without an error")
			s := x.at(v, 0)
			x.same(key+" database", where(x), x.m(stT(x), s, "DatabaseName"), db, "the database name read from the statement")
			x.same(key+" tables", where(x), x.m(stT(x), s, "TableNames"), x.slice(tbls...), "the table names read from the statement")
			x.same(key+" statement", where(x), x.m(stT(x), s, "Statement"), sel, "the statement itself")
		}
		gen := func(name, db string, tbls []string) {
			r.scenario(name, func(x *X) {
				opts := []*T{x.fn(sysPkg, "WithSchemaColumnsStatementTableNames", x.strs(tbls...))}
				if db != "" {
					opts = append(opts, x.fn(sysPkg, "WithSchemaColumnsStatementDatabaseName", e.str(db)))
				}
				v := x.fn(sysPkg, "NewSchemaColumnsStatement", x.slice(opts...))
				x.holds("accepted", where(x), x.isNil(x.at(v, 1)), "the names are accepted")
				s := x.at(v, 0)
				x.same("database", where(x), x.m(stT(x), s, "DatabaseName"), e.str(db), "the database name")
				x.same("tables", where(x), x.m(stT(x), s, "TableNames"), x.strs(tbls...), "the table names")
				sel := x.m(stT(x), s, "Statement")
				var ts []string
				for _, t := range tbls {
					ts = append(ts, "TABLE_NAME = "+esc(t))
				}
				tw := strings.Join(ts, " OR ")
				cond := ""
				var alts []string
				switch {
				case db != "" && len(ts) > 1:
					cond = " WHERE TABLE_SCHEMA = " + esc(db) + " AND (" + tw + ")"
					var in []string
					for _, t := range tbls {
						in = append(in, esc(t))
					}
					alts = append(alts, " WHERE TABLE_SCHEMA = "+esc(db)+" AND TABLE_NAME IN ("+strings.Join(in, ", ")+")")
				case db != "" && len(ts) == 1:
					cond = " WHERE TABLE_SCHEMA = " + esc(db) + " AND " + tw
				case db != "":
					cond = " WHERE TABLE_SCHEMA = " + esc(db)
				case len(ts) > 0:
					cond = " WHERE " + tw
				}
				text, ok := x.strOf("text", x.m(selT(x), sel, "String"))
				if ok {
					hit := sysText(text, cond)
					for _, a := range alts {
						hit = hit || sysText(text, a)
					}
					r.expect(hit, x.name+"|text", where(x), "%s: the statement is %q, not %q", x.name, text, "SELECT * FROM information_schema.COLUMNS"+cond)
				}
				x.same("recognised", x.pos(sysPkg, "IsSchemaColumsQuery"), x.fn(sysPkg, "IsSchemaColumsQuery", sel), e.True, "the generated statement is a schema columns query")
				if db != "" || len(tbls) > 0 {
					var tt []*T
					for _, t := range tbls {
						tt = append(tt, e.str(t))
					}
					read(x, "read back", sel, e.str(db), tt)
				}
				if db == "" {
					q := x.fn(sysPkg, "NewSchemaColumnsQueryFromTableNames", x.strs(tbls...))
					qw := x.pos(sysPkg, "NewSchemaColumnsQueryFromTableNames")
					x.holds("query accepted", qw, x.isNil(x.at(q, 1)), "the table names are accepted")
					if text, ok := x.strOf("query", x.m(selT(x), x.at(q, 0), "String")); ok {
						r.expect(sysText(text, cond), x.name+"|query", qw, "%s: the query is %q, not %q", x.name, text, "SELECT * FROM information_schema.COLUMNS"+cond)
					}
				}
			})
		}
		for _, db := range []string{"", "db", "d'x"} {
			for _, ts := range [][]string{{}, {"a"}, {"a", "b"}, {"b", "a", "c"}, {"it's"}, {"' OR '1'='1", "b"}, {"a b", "a.b"}} {
				gen(fmt.Sprintf("database %q, tables %q", db, ts), db, ts)
			}
		}
		for _, n := range append([]string{"information_schema", "INFORMATION_SCHEMA", "def", "TABLE_NAME", "COLUMNS"}, awkward...) {
			if n != "" {
				gen(fmt.Sprintf("names %q", n), n, []string{n})
			}
		}
		long := make([]string, 5)
		for i := range long {
			long[i] = fmt.Sprint("t", i)
		}
		gen("5 tables", "db", long)
		gen("repeated tables", "db", []string{"t", "t", "u", "t"})
		r.scenario("the query", func(x *X) {
			got, _ := x.pkgConst(sysPkg, "SchemaColumnsQuery").isStr()
			r.expect(sysText(got, ""), x.name, sysPkg+"/schema_columns.go", "SchemaColumnsQuery is %q, not %q", got, "SELECT * FROM information_schema.COLUMNS")
		})
		r.scenario("arbitrary names", func(x *X) {
			// names are not looked at
			for n := 1; n <= 3; n++ {
				var ts []*T
				for i := 0; i < n; i++ {
					ts = append(ts, x.strSym(fmt.Sprintf("t%d", i)))
				}
				k := fmt.Sprintf("%d tables", n)
				v := x.fn(sysPkg, "NewSchemaColumnsStatement", x.slice(x.fn(sysPkg, "WithSchemaColumnsStatementDatabaseName", e.str("db")), x.fn(sysPkg, "WithSchemaColumnsStatementTableNames", x.slice(ts...))))
				x.holds(k+" accepted", where(x), x.isNil(x.at(v, 1)), "the names are accepted")
				s := x.at(v, 0)
				x.same(k+" tables", where(x), x.m(stT(x), s, "TableNames"), x.slice(ts...), "the table names")
				read(x, k+" read back", x.m(stT(x), s, "Statement"), e.str("db"), ts)
			}
		})
		// statements of others
		cmp := func(x *X, op, col, lit string) *T { return x.qCmp(op, col, lit) }
		and := func(x *X, a, b *T) *T { return x.wrap(x.fn(qryPkg, "NewAndExpr", a, b)) }
		or := func(x *X, a, b *T) *T { return x.wrap(x.fn(qryPkg, "NewOrExpr", a, b)) }
		mkSel := func(x *X, tables *T, expr *T) *T {
			return x.wrap(x.fn(qryPkg, "NewSelectWith", x.slice(x.qNamed("*")...), tables, x.qCond(expr), x.slice()))
		}
		for _, c := range []struct {
			name string
			expr func(x *X) *T
			db   string
			tbls []string
			bad  bool
		}{
			{"schema and table", func(x *X) *T {
				return and(x, cmp(x, "EQ", "TABLE_SCHEMA", "'d'"), cmp(x, "EQ", "TABLE_NAME", "'t'"))
			}, "d", []string{"t"}, false},
			{"table and schema", func(x *X) *T {
				return and(x, cmp(x, "EQ", "TABLE_NAME", "'t'"), cmp(x, "EQ", "TABLE_SCHEMA", "'d'"))
			}, "d", []string{"t"}, false},
			{"lower case", func(x *X) *T {
				return and(x, cmp(x, "EQ", "table_schema", "'D'"), cmp(x, "EQ", "table_name", "'T'"))
			}, "D", []string{"T"}, false},
			{"table only", func(x *X) *T { return cmp(x, "EQ", "TABLE_NAME", "'it''s'") }, "", []string{"it's"}, false},
			{"schema only", func(x *X) *T { return cmp(x, "EQ", "TABLE_SCHEMA", "'d'") }, "d", nil, false},
			{"table not equal", func(x *X) *T { return cmp(x, "NEQ", "TABLE_NAME", "'t'") }, "", nil, true},
			{"table less", func(x *X) *T { return cmp(x, "LT", "TABLE_NAME", "'t'") }, "", nil, true},
			{"table greater", func(x *X) *T { return cmp(x, "GE", "TABLE_NAME", "'t'") }, "", nil, true},
			{"not equal on the right", func(x *X) *T {
				return and(x, cmp(x, "EQ", "TABLE_SCHEMA", "'d'"), cmp(x, "NEQ", "TABLE_NAME", "'t'"))
			}, "", nil, true},
			{"not equal on the left", func(x *X) *T {
				return and(x, cmp(x, "NEQ", "TABLE_SCHEMA", "'d'"), cmp(x, "EQ", "TABLE_NAME", "'t'"))
			}, "", nil, true},
			{"schema or table", func(x *X) *T {
				return or(x, cmp(x, "EQ", "TABLE_SCHEMA", "'d'"), cmp(x, "EQ", "TABLE_NAME", "'t'"))
			}, "", nil, true},
			{"table or schema", func(x *X) *T {
				return or(x, cmp(x, "EQ", "TABLE_NAME", "'t'"), cmp(x, "EQ", "TABLE_SCHEMA", "'d'"))
			}, "", nil, true},
			{"and within or on the left", func(x *X) *T {
				return or(x, and(x, cmp(x, "EQ", "TABLE_NAME", "'t'"), cmp(x, "EQ", "TABLE_NAME", "'u'")), cmp(x, "EQ", "TABLE_NAME", "'v'"))
			}, "", nil, true},
			{"and within or on the right", func(x *X) *T {
				return or(x, cmp(x, "EQ", "TABLE_NAME", "'t'"), and(x, cmp(x, "EQ", "TABLE_SCHEMA", "'d'"), cmp(x, "EQ", "TABLE_NAME", "'u'")))
			}, "", nil, true},
			{"not equal within or", func(x *X) *T {
				return or(x, cmp(x, "EQ", "TABLE_NAME", "'t'"), cmp(x, "NEQ", "TABLE_NAME", "'u'"))
			}, "", nil, true},
			{"tables or tables", func(x *X) *T {
				return or(x, cmp(x, "EQ", "TABLE_NAME", "'t'"), or(x, cmp(x, "EQ", "table_name", "'u'"), cmp(x, "EQ", "TABLE_NAME", "'v'")))
			}, "", []string{"t", "u", "v"}, false},
		} {
			c := c
			r.scenario("statement with "+c.name, func(x *X) {
				sel := mkSel(x, x.qTables("information_schema.COLUMNS"), c.expr(x))
				if c.bad {
					v := x.fn(sysPkg, "NewSchemaColumnsStatement", x.slice(x.fn(sysPkg, "WithSchemaColumnsStatementSelect", sel)))
					x.holds("refused", where(x), x.notNil(x.at(v, 1)), "a condition that is not a list of names is refused")
					x.holds("kind", where(x), x.isErr(x.at(v, 1), sysPkg, "ErrInvalid"), "the error is ErrInvalid")
					return
				}
				var ts []*T
				for _, t := range c.tbls {
					ts = append(ts, e.str(t))
				}
				read(x, "read", sel, e.str(c.db), ts)
			})
		}
		r.scenario("statement and names", func(x *X) {
			sel := mkSel(x, x.qTables("information_schema.COLUMNS"), cmp(x, "EQ", "TABLE_NAME", "'t'"))
			given := x.strs("u", "v")
			v := x.fn(sysPkg, "NewSchemaColumnsStatement", x.slice(x.fn(sysPkg, "WithSchemaColumnsStatementTableNames", given), x.fn(sysPkg, "WithSchemaColumnsStatementSelect", sel)))
			x.holds("accepted", where(x), x.isNil(x.at(v, 1)), "the statement is read without an error")
			x.same("tables", where(x), x.m(stT(x), x.at(v, 0), "TableNames"), x.strs("t"), "the table names of the given statement")
			x.same("list of the caller", where(x), given, x.strs("u", "v"), "the list of names of the caller")
		})
		for _, c := range []struct {
			tables []string
			is     bool
		}{{[]string{"information_schema.COLUMNS"}, true}, {[]string{"information_schema.columns"}, true}, {[]string{"INFORMATION_SCHEMA.COLUMNS"}, true}, {[]string{"information_schema.tables"}, false}, {[]string{"my_information_schema.columns"}, false}, {[]string{"information_schema.columns2"}, false}, {[]string{"information_schemas.columns"}, false}, {[]string{"information_schema.column"}, false}, {[]string{"information_schema"}, false}, {[]string{"information_schemacolumns"}, false}, {[]string{"t", "information_schema.columns"}, false}, {[]string{"information_schema.columns", "information_schema.columns"}, false}, {[]string{"columns"}, false}, {[]string{"other.columns"}, false}, {[]string{"information_schema.columns", "t"}, false}, {nil, false}} {
			c := c
			r.scenario(fmt.Sprintf("tables %q", c.tables), func(x *X) {
				sel := mkSel(x, x.qTables(c.tables...), nil)
				x.same("recognised", x.pos(sysPkg, "IsSchemaColumsQuery"), x.fn(sysPkg, "IsSchemaColumsQuery", sel), e.boolc(c.is), "IsSchemaColumsQuery")
			})
		}
		// columns
		colT := func(x *X) types.Type { return x.typ(sysPkg, "SchemaColumn") }
		mkCol := func(x *X, c, s, t, n *T, typ string) *T {
			str := func(v *T) *T { return e.iface(types.Typ[types.String], v) }
			return x.fn(sysPkg, "NewColumn", x.slice(
				x.fn(sysPkg, "WithColumnCatalog", str(c)), x.fn(sysPkg, "WithColumnSchema", str(s)), x.fn(sysPkg, "WithColumnTable", str(t)), x.fn(sysPkg, "WithColumnName", str(n)), x.fn(sysPkg, "WithColumnDataType", e.anyStr(typ))))
		}
		isCol := func(x *X, key string, col, c, s, t, n *T, typ string) {
			w := x.pos(sysPkg, "NewColumn")
			x.same(key+" catalog", w, x.m(colT(x), col, "Catalog"), c, "the catalog of the column")
			x.same(key+" schema", w, x.m(colT(x), col, "Schema"), s, "the schema of the column")
			x.same(key+" table", w, x.m(colT(x), col, "Table"), t, "the table of the column")
			x.same(key+" name", w, x.m(colT(x), col, "Name"), n, "the name of the column")
			x.same(key+" type", w, x.m(colT(x), col, "DataType"), x.pkgConst(qryPkg, typ), "the data type of the column")
		}
		r.scenario("column", func(x *X) {
			c, s, t, n := x.strSym("c"), x.strSym("s"), x.strSym("t"), x.strSym("n")
			for typ, sql := range map[string]string{"IntType": "INT", "TextType": "TEXT", "DateTimeType": "DATETIME", "BooleanType": "BOOLEAN"} {
				v := mkCol(x, c, s, t, n, sql)
				x.holds(typ+" accepted", x.pos(sysPkg, "NewColumn"), x.isNil(x.at(v, 1)), "the column is accepted")
				isCol(x, typ, x.at(v, 0), c, s, t, n, typ)
			}
			v := mkCol(x, c, s, t, n, "NOTYPE")
			x.holds("unknown type", x.pos(sysPkg, "WithColumnDataType"), x.notNil(x.at(v, 1)), "an unknown data type is refused")
		})
		r.scenario("lookup", func(x *X) {
			var cs []*T
			for _, n := range []string{"id", "Name", "AGE"} {
				cs = append(cs, x.at(mkCol(x, e.str("c"), e.str("s"), e.str("t"), e.str(n), "INT"), 0))
			}
			s := x.wrap(x.fn(sysPkg, "NewSchemaColumns", x.slice(x.fn(sysPkg, "WithColumns", x.slice(cs...)))))
			st := x.typ(sysPkg, "SchemaColumnsResultSet")
			w := x.pos(sysPkg, "NewSchemaColumns")
			x.listIs("columns", w, x.m(st, s, "Columns"), cs, "the columns")
			for i, n := range []string{"ID", "name", "age"} {
				l := x.m(st, s, "LookupColumn", e.str(n))
				x.holds("found "+n, w, x.isNil(x.at(l, 1)), "the column %s is found", n)
				x.same("column "+n, w, x.at(l, 0), cs[i], "the column %s", n)
			}
			for _, n := range []string{"", "i", "idx", "x"} {
				l := x.m(st, s, "LookupColumn", e.str(n))
				x.holds("unknown "+n, w, x.isErr(x.at(l, 1), sysPkg, "ErrNotFound"), "the unknown column %q is ErrNotFound", n)
			}
		})
		// through a result set
		for n := 0; n <= 6; n++ {
			n := n
			r.scenario(fmt.Sprintf("result set of %d schemas", n), func(x *X) {
				type row struct{ schema, table, col, typ, sql string }
				all := [][]row{
					{{"", "t", "a", "IntType", "INT"}, {"", "t", "b", "TextType", "TEXT"}},
					{},
					{{"db", "u", "a", "DateTimeType", "DATETIME"}},
					{{"db", "w", "a", "DateTimeType", "DATETIME"}, {"db", "w", "A", "IntType", "INT"}},
					{{"d2", "w", "A", "IntType", "INT"}},
					{{"information_schema", "COLUMNS", "TABLE_NAME", "TextType", "TEXT"}, {"information_schema", "COLUMNS", "", "TextType", "TEXT"}},
				}
				names := []string{"t", "v", "db.u", "db.w", "d2.w", "information_schema.COLUMNS"}
				var ss []*T
				var rows [][]*T
				var want []row
				for i := 0; i < n; i++ {
					var cs [][2]string
					for _, c := range all[i] {
						cs = append(cs, [2]string{c.col, c.typ})
						vals := []*T{e.anyStr("def"), e.anyStr(c.schema), e.anyStr(c.table), e.anyStr(c.col), e.anyStr(c.sql)}
						rows = append(rows, vals)
						want = append(want, c)
					}
					name := names[i]
					var opt []*T
					if j := strings.Index(name, "."); j >= 0 {
						opt = append(opt, x.fn(qryPkg, "WithSchemaName", e.str(name[:j])))
						name = name[j+1:]
					}
					var qs []*T
					for _, c := range cs {
						q := x.qDef(c[0], c[1], 16*len(qs))
						qs = append(qs, q)
					}
					opt = append(opt, x.fn(qryPkg, "WithSchemaColumns", x.slice(qs...)))
					ss = append(ss, x.wrap(x.fn(qryPkg, "NewSchemaWith", e.str(name), x.slice(opt...))))
				}
				w := x.pos(sysPkg, "NewSchemaColumnsResultSetFromSchemas")
				mk := func() *T {
					v := x.fn(sysPkg, "NewSchemaColumnsResultSetFromSchemas", x.slice(ss...))
					x.holds("accepted", w, x.isNil(x.at(v, 1)), "the schemas are accepted")
					return x.at(v, 0)
				}
				rs := mk()
				x.same("affected", w, x.m(x.typ(rsPkg, "ResultSet"), rs, "RowsAffected"), x.uint("0"), "the number of rows affected")
				x.rsCols("columns", w, rs, "TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "DATA_TYPE")
				for _, lc := range x.cases(x.m(x.typ(rsPkg, "Schema"), x.m(x.typ(rsPkg, "ResultSet"), rs, "Schema"), "Columns")) {
					for i, c := range lc.vs {
						x.same(fmt.Sprintf("column type %d", i), w, x.m(x.typ(rsPkg, "Column"), c, "DataType"), x.pkgConst(qryPkg, "TextType"), "the type of column %d", i)
					}
				}
				x.rsRows("rows", w, rs, rows)
				fw := x.pos(sysPkg, "NewSchemaColumnsResultSetFromResultSet")
				back := x.fn(sysPkg, "NewSchemaColumnsResultSetFromResultSet", mk())
				x.holds("back accepted", fw, x.isNil(x.at(back, 1)), "the result set is accepted")
				cols := x.m(x.typ(sysPkg, "SchemaColumnsResultSet"), x.at(back, 0), "Columns")
				lc := x.cases(cols)
				if len(lc) != 1 {
					r.unknown("%s: the columns have no known shape", x.name)
					return
				}
				if r.expectN(x, "back", fw, len(lc[0].vs), len(want), "columns") {
					for i, c := range want {
						isCol(x, fmt.Sprintf("back %d", i), lc[0].vs[i], e.str("def"), e.str(c.schema), e.str(c.table), e.str(c.col), c.typ)
					}
				}
			})
		}
		for _, miss := range []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "DATA_TYPE"} {
			miss := miss
			r.scenario("result set without "+miss, func(x *X) {
				var cs []*T
				var ks []string
				var vs []*T
				for _, c := range []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "DATA_TYPE"} {
					if c != miss {
						cs = append(cs, x.rsColumn(c, "TextType"))
						ks = append(ks, c)
						vs = append(vs, e.anyStr("INT"))
					}
				}
				sch := x.rsSchema(cs...)
				row := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs(ks, vs)), x.fn(rsPkg, "WithRowSchema", sch)))
				rs := x.fn(rsPkg, "NewResultSet", x.slice(x.fn(rsPkg, "WithResultSetSchema", sch), x.fn(rsPkg, "WithResultSetRows", x.slice(row))))
				v := x.fn(sysPkg, "NewSchemaColumnsResultSetFromResultSet", rs)
				x.holds("refused", x.pos(sysPkg, "NewSchemaColumnsResultSetFromResultSet"), x.notNil(x.at(v, 1)), "a result set without the column %s is refused", miss)
			})
		}
	})
}

// sysText compares a statement on the schema columns, names of the information
// schema in any case.
func sysText(got, cond string) bool {
	g, w := sqlTokens(got), sqlTokens("SELECT * FROM information_schema.COLUMNS"+cond)
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] != w[i] && (strings.HasPrefix(w[i], "'") || !strings.EqualFold(g[i], w[i])) {
			return false
		}
	}
	return true
}
