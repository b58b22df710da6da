package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// sqlTokens splits a rendered statement: white space separates tokens and is
// otherwise without meaning.
func sqlTokens(s string) []string {
	var out []string
	word := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(s) {
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j < len(s) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case word(c):
			j := i
			for j < len(s) && word(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			n := 1
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "!=", "<>", "<=", ">=", "||", "--":
					n = 2
				}
			}
			out = append(out, s[i:i+n])
			i += n
		}
	}
	return out
}

func sameTokens(a, b string) bool {
	return strings.Join(sqlTokens(a), "\x00") == strings.Join(sqlTokens(b), "\x00")
}

// rendered is the obligation that a statement is written as the given text.
func (x *X) rendered(key string, iface string, v *T, want string) {
	v = x.wrap(v)
	s, ok := x.strOf(key, x.m(x.typ(qryPkg, iface), v, "String"))
	if !ok {
		return
	}
	x.r.expect(sameTokens(s, want), x.name+"|"+key, "sql/query "+iface+".String", "%s: rendered %q, which is not %q", x.name, s, want)
}

func (x *X) qTable(name string) *T {
	o := x.slice()
	if i := strings.Index(name, "."); i >= 0 {
		o = x.slice(x.fn(qryPkg, "WithTableSchema", x.e.str(name[:i])))
		name = name[i+1:]
	}
	return x.fn(qryPkg, "NewTableWith", x.e.str(name), o)
}

func (x *X) qTables(names ...string) *T {
	var ts []*T
	for _, n := range names {
		ts = append(ts, x.qTable(n))
	}
	return x.slice(ts...)
}

// qLit is a literal as the parser makes it: 'text' a string, everything else
// a value written as it is.
func (x *X) qLit(s string) *T {
	if strings.HasPrefix(s, "'") {
		v := strings.ReplaceAll(s[1:len(s)-1], "''", "'")
		return x.fn(qryPkg, "NewLiteralWith", x.e.iface(types.Typ[types.String], x.e.str(v)), x.slice(x.fn(qryPkg, "WithLiteralType", x.pkgConst(qryPkg, "StringLiteral"))))
	}
	return x.fn(qryPkg, "NewLiteralWith", x.e.iface(types.Typ[types.String], x.e.str(s)), x.slice())
}

func (x *X) qCmp(op, col, lit string) *T {
	return x.wrap(x.fn(qryPkg, "NewCmpExprWith", x.pkgConst(qryPkg, op), x.fn(qryPkg, "NewColumnWithName", x.e.str(col)), x.qLit(lit)))
}

func (x *X) qCond(expr *T) *T {
	if expr == nil {
		return x.fn(qryPkg, "NewCondition")
	}
	return x.fn(qryPkg, "NewConditionWith", expr)
}

func (x *X) qVal(name, lit string) *T {
	return x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", x.e.str(name)), x.fn(qryPkg, "WithColumnLiteral", x.qLit(lit))))
}

func (x *X) qDef(name, typ string, n int) *T {
	return x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", x.e.str(name)), x.fn(qryPkg, "WithColumnData", x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, typ), x.e.intc(n)))))
}

func (x *X) ifne(b bool) *T { return x.fn(qryPkg, "NewIfNotExistsWith", x.e.boolc(b)) }
func (x *X) ife(b bool) *T  { return x.fn(qryPkg, "NewIfExistsWith", x.e.boolc(b)) }

func init() {
	register("C10", func(r *Run) {
		e := r.e
		r.rule("evaluate String of every kind of statement, built through the public constructors with every combination of optional clauses, several tables, rows, columns, operators and literals with quotes: the text, split into tokens, is the SQL text of exactly what the statement holds, clause by clause in the order of the grammar")
		opt := func(b bool, s string) string {
			if b {
				return s
			}
			return ""
		}
		lists := [][]string{{"a"}, {"a", "b"}, {"c", "b", "a"}, {"sc.t"}, {"a", "sc.t"}}
		for _, c := range []struct{ fn, iface, want string }{{"NewBegin", "Begin", "BEGIN"}, {"NewCommit", "Commit", "COMMIT"}, {"NewRollback", "Rollback", "ROLLBACK"}, {"NewVacuum", "Vacuum", "VACUUM"}} {
			c := c
			r.scenario(c.want, func(x *X) { x.rendered("text", c.iface, x.fn(qryPkg, c.fn), c.want) })
		}
		r.scenario("USE", func(x *X) { x.rendered("text", "Use", x.fn(qryPkg, "NewUseWith", e.str("db1")), "USE db1") })
		r.scenario("VACUUM of a table", func(x *X) {
			x.rendered("text", "Vacuum", x.fn(qryPkg, "NewVacuumWith", x.qTable("t1")), "VACUUM t1")
		})
		r.scenario("ALTER DATABASE", func(x *X) {
			x.rendered("text", "AlterDatabase", x.fn(qryPkg, "NewAlterDatabaseWith", e.str("db1"), e.str("db2")), "ALTER DATABASE db1 RENAME TO db2")
		})
		for _, b := range []bool{false, true} {
			b := b
			r.scenario(fmt.Sprintf("databases, option %v", b), func(x *X) {
				x.rendered("create", "CreateDatabase", x.fn(qryPkg, "NewCreateDatabaseWith", e.str("db1"), x.ifne(b)), "CREATE DATABASE "+opt(b, "IF NOT EXISTS ")+"db1")
				x.rendered("drop", "DropDatabase", x.fn(qryPkg, "NewDropDatabaseWith", e.str("db1"), x.ife(b)), "DROP DATABASE "+opt(b, "IF EXISTS ")+"db1")
			})
			for _, tbl := range []string{"", "t1"} {
				tbl := tbl
				r.scenario(fmt.Sprintf("DROP INDEX of table %q, option %v", tbl, b), func(x *X) {
					x.rendered("text", "DropIndex", x.fn(qryPkg, "NewDropIndexWith", e.str(tbl), e.str("ix"), x.ife(b)), "DROP INDEX "+opt(b, "IF EXISTS ")+opt(tbl != "", tbl+".")+"ix")
				})
			}
			for _, l := range lists {
				l := l
				r.scenario(fmt.Sprintf("DROP TABLE %v, option %v", l, b), func(x *X) {
					x.rendered("text", "DropTable", x.fn(qryPkg, "NewDropTableWith", x.qTables(l...), x.ife(b)), "DROP TABLE "+opt(b, "IF EXISTS ")+strings.Join(l, ", "))
				})
				r.scenario(fmt.Sprintf("TRUNCATE %v", l), func(x *X) {
					x.rendered("text", "Truncate", x.fn(qryPkg, "NewTruncateWith", x.qTables(l...)), "TRUNCATE TABLE "+strings.Join(l, ", "))
				})
			}
			for n := 1; n <= 3; n++ {
				cols := []string{"a", "b", "c"}[:n]
				r.scenario(fmt.Sprintf("CREATE INDEX of %d columns, option %v", n, b), func(x *X) {
					ix := x.fn(qryPkg, "NewSecondaryIndexWith", e.str("ix"), x.slice(x.qNamed(cols...)...))
					sc := x.fn(qryPkg, "NewSchemaWith", e.str("t1"), x.slice(x.fn(qryPkg, "WithSchemaIndexes", x.slice(ix))))
					x.rendered("text", "CreateIndex", x.fn(qryPkg, "NewCreateIndexWith", sc, x.ifne(b)), "CREATE INDEX "+opt(b, "IF NOT EXISTS ")+"ix ON t1("+strings.Join(cols, ", ")+")")
				})
				r.scenario(fmt.Sprintf("CREATE TABLE with an index of the name of its column among %d columns, option %v", n, b), func(x *X) {
					var cs []*T
					var ws []string
					for _, c := range cols {
						cs = append(cs, x.qDef(c, "IntType", -1))
						ws = append(ws, c+" INT")
					}
					var is []*T
					for _, c := range cols {
						is = append(is, x.fn(qryPkg, "NewSecondaryIndexWith", e.str(c), x.slice(x.qNamed(c)...)))
						ws = append(ws, "INDEX "+c+" ("+c+")")
					}
					sc := x.fn(qryPkg, "NewSchemaWith", e.str("t1"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(cs...)), x.fn(qryPkg, "WithSchemaIndexes", x.slice(is...))))
					x.rendered("text", "CreateTable", x.fn(qryPkg, "NewCreateTableWith", sc, x.ifne(b)), "CREATE TABLE "+opt(b, "IF NOT EXISTS ")+"t1 ("+strings.Join(ws, ", ")+")")
				})
				for m := 0; m < 4; m++ {
					m, n := m, n
					r.scenario(fmt.Sprintf("CREATE TABLE of %d columns, indexes %02b, option %v", n, m, b), func(x *X) {
						types := []string{"IntType", "VarCharType", "TextType"}
						defs := []string{"INT", "VARCHAR(16)", "TEXT"}
						var cs []*T
						var ws []string
						for i, c := range cols {
							l := []int{-1, 16, 0}[i]
							cs = append(cs, x.qDef(c, types[i], l))
							ws = append(ws, c+" "+defs[i])
						}
						var is []*T
						if m&1 != 0 {
							is = append(is, x.fn(qryPkg, "NewPrimaryIndexWith", x.slice(x.qNamed(cols...)...)))
							ws = append(ws, "PRIMARY KEY ("+strings.Join(cols, ", ")+")")
						}
						if m&2 != 0 {
							is = append(is, x.fn(qryPkg, "NewSecondaryIndexWith", e.str("ix"), x.slice(x.qNamed("a")...)))
							ws = append(ws, "INDEX ix (a)")
						}
						sc := x.fn(qryPkg, "NewSchemaWith", e.str("t1"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(cs...)), x.fn(qryPkg, "WithSchemaIndexes", x.slice(is...))))
						x.rendered("text", "CreateTable", x.fn(qryPkg, "NewCreateTableWith", sc, x.ifne(b)), "CREATE TABLE "+opt(b, "IF NOT EXISTS ")+"t1 ("+strings.Join(ws, ", ")+")")
					})
				}
			}
		}
		// every data type in a definition
		for _, dt := range r.constsOf(qryPkg, "DataType") {
			nm, ok := dataTypeNames[dt]
			if !ok {
				continue
			}
			dt := dt
			for _, l := range []int{-1, 0, 1, 255} {
				l := l
				r.scenario(fmt.Sprintf("definition %s %d", dt, l), func(x *X) {
					d := x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, dt), e.intc(l))
					x.rendered("text", "ColumnDef", d, nm+opt(l > 0, fmt.Sprintf("(%d)", l)))
				})
			}
		}
		// ALTER TABLE
		for _, tb := range []string{"t1", "sc.t1"} {
			tb := tb
			alter := func(what string, f func(x *X) *T, want string) {
				r.scenario("ALTER TABLE "+tb+" "+what, func(x *X) {
					os := []*T{f(x)}
					n := tb
					if i := strings.Index(tb, "."); i >= 0 {
						os, n = append(os, x.fn(qryPkg, "WithAlterTableSchema", e.str(tb[:i]))), tb[i+1:]
					}
					x.rendered("text", "AlterTable", x.fn(qryPkg, "NewAlterTableWith", e.str(n), x.slice(os...)), "ALTER TABLE "+tb+" "+want)
				})
			}
			alter("rename", func(x *X) *T { return x.fn(qryPkg, "WithAlterTableRenameTo", x.qTable("t2")) }, "RENAME TO t2")
			alter("rename column", func(x *X) *T {
				cs := x.qNamed("a", "b")
				return x.fn(qryPkg, "WithAlterTableRenameColumn", cs[0], cs[1])
			}, "RENAME COLUMN a TO b")
			alter("add column", func(x *X) *T {
				return x.fn(qryPkg, "WithAlterTableAddColumn", x.qDef("a", "VarCharType", 10))
			}, "ADD a VARCHAR(10)")
			alter("add primary key", func(x *X) *T {
				return x.fn(qryPkg, "WithAlterTableAddIndex", x.fn(qryPkg, "NewPrimaryIndexWith", x.slice(x.qNamed("a", "b")...)))
			}, "ADD PRIMARY KEY (a, b)")
			alter("add index", func(x *X) *T {
				return x.fn(qryPkg, "WithAlterTableAddIndex", x.fn(qryPkg, "NewSecondaryIndexWith", e.str("ix"), x.slice(x.qNamed("a", "b")...)))
			}, "ADD INDEX ix (a, b)")
			alter("drop column", func(x *X) *T { return x.fn(qryPkg, "WithAlterTableDropColumn", x.qNamed("a")[0]) }, "DROP a")
			alter("drop index", func(x *X) *T { return x.fn(qryPkg, "WithAlterTableDropIndex", x.qIndexes("ix")[0]) }, "DROP INDEX ix")
		}
		// literals
		lits := []string{"1", "-2.50", "NULL", "TRUE", "?", ":p", "$1", "''", "'x'", "'it''s'", "''''", "'a, b'", "'?'", "'--'", "'NULL'", "'a\"b'", "' '", "x'ab'"}
		// conditions
		type cond struct {
			want string
			mk   func(x *X) *T
		}
		conds := []cond{{"", func(x *X) *T { return nil }}}
		for op, s := range map[string]string{"EQ": "=", "NEQ": "!=", "LT": "<", "GT": ">", "LE": "<=", "GE": ">="} {
			op := op
			conds = append(conds, cond{"x " + s + " 1", func(x *X) *T { return x.qCmp(op, "x", "1") }})
		}
		for _, l := range lits {
			l := l
			conds = append(conds, cond{"x = " + l, func(x *X) *T { return x.qCmp("EQ", "x", l) }})
		}
		bin := func(op string, a, b func(x *X) *T) func(x *X) *T {
			return func(x *X) *T { return x.wrap(x.fn(qryPkg, "New"+op+"Expr", a(x), b(x))) }
		}
		c1 := func(x *X) *T { return x.qCmp("EQ", "x", "1") }
		c2 := func(x *X) *T { return x.qCmp("LT", "y", "'a'") }
		c3 := func(x *X) *T { return x.qCmp("GE", "z", "?") }
		for _, o := range []string{"And", "Or"} {
			u := strings.ToUpper(o)
			conds = append(conds,
				cond{"x = 1 " + u + " y < 'a'", bin(o, c1, c2)},
				cond{"x = 1 " + u + " y < 'a' " + u + " z >= ?", bin(o, bin(o, c1, c2), c3)},
				cond{"x = 1 " + u + " y < 'a' " + u + " z >= ?", bin(o, c1, bin(o, c2, c3))})
		}
		conds = append(conds,
			cond{"x = 1 AND y < 'a' OR z >= ?", bin("Or", bin("And", c1, c2), c3)},
			cond{"x = 1 OR y < 'a' AND z >= ?", bin("Or", c1, bin("And", c2, c3))},
			cond{"(x = 1 OR y < 'a') AND z >= ?", bin("And", bin("Or", c1, c2), c3)},
			cond{"x = 1 AND (y < 'a' OR z >= ?)", bin("And", c1, bin("Or", c2, c3))},
			cond{"(x = 1 OR y < 'a') AND (z >= ? OR x = 1)", bin("And", bin("Or", c1, c2), bin("Or", c3, c1))},
			cond{"x = 1 AND y < 'a' OR z >= ? AND x = 1", bin("Or", bin("And", c1, c2), bin("And", c3, c1))})
		where := func(c cond) string {
			if c.want == "" {
				return ""
			}
			return " WHERE " + c.want
		}
		for i, c := range conds {
			c := c
			r.scenario(fmt.Sprintf("condition %d %s", i, c.want), func(x *X) {
				w := x.qCond(c.mk(x))
				x.rendered("condition", "Condition", w, c.want)
				x.rendered("select", "Select", x.fn(qryPkg, "NewSelectWith", x.slice(x.qNamed("a")...), x.qTables("t1"), w, x.slice()), "SELECT a FROM t1"+where(c))
				x.rendered("delete", "Delete", x.fn(qryPkg, "NewDeleteWith", x.qTable("sc.t1"), w, x.slice()), "DELETE FROM sc.t1"+where(c))
				x.rendered("update", "Update", x.fn(qryPkg, "NewUpdateWith", x.qTable("sc.t1"), x.slice(x.qVal("a", "1")), w), "UPDATE sc.t1 SET a = 1"+where(c))
			})
		}
		// values
		for i, l := range lits {
			i, l := i, l
			r.scenario("value "+l, func(x *X) {
				o := lits[(i+5)%len(lits)]
				row := func(a, b string) *T { return x.slice(x.qVal("a", a), x.qVal("b", b)) }
				x.rendered("one row", "Insert", x.fn(qryPkg, "NewInsertWith", x.qTable("t1"), x.slice(row(l, o))), "INSERT INTO t1 (a, b) VALUES ("+l+", "+o+")")
				x.rendered("two rows", "Insert", x.fn(qryPkg, "NewInsertWith", x.qTable("sc.t1"), x.slice(row(l, o), row(o, l))), "INSERT INTO sc.t1 (a, b) VALUES ("+l+", "+o+"), ("+o+", "+l+")")
				x.rendered("three rows", "Insert", x.fn(qryPkg, "NewInsertWith", x.qTable("t1"), x.slice(row(l, o), row(o, o), row(o, l))), "INSERT INTO t1 (a, b) VALUES ("+l+", "+o+"), ("+o+", "+o+"), ("+o+", "+l+")")
				x.rendered("set", "Update", x.fn(qryPkg, "NewUpdateWith", x.qTable("t1"), x.slice(x.qVal("a", l), x.qVal("b", o)), x.qCond(nil)), "UPDATE t1 SET a = "+l+", b = "+o)
			})
		}
		// values that are Go values, as an application sets them
		for _, c := range []struct {
			name, want string
			v          *T
		}{
			{"nil", "NULL", e.Nil},
			{"int", "42", e.iface(types.Typ[types.Int], e.intc(42))},
			{"negative int64", "-9007199254740993", e.iface(types.Typ[types.Int64], e.intc(-9007199254740993))},
			{"int8", "0", e.iface(types.Typ[types.Int8], e.intc(0))},
			{"float64", "1.5", e.iface(types.Typ[types.Float64], e.constant(constant.MakeFloat64(1.5), types.Typ[types.Float64]))},
			{"bool", "true", e.iface(types.Typ[types.Bool], e.True)},
		} {
			c := c
			r.scenario("Go value "+c.name, func(x *X) {
				lit := func() *T { return x.fn(qryPkg, "NewLiteralWith", c.v, x.slice()) }
				col := func(n string) *T {
					return x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str(n)), x.fn(qryPkg, "WithColumnLiteral", lit())))
				}
				set := x.fn(qryPkg, "NewColumnWithName", e.str("d"))
				x.holds("set", "sql/query Column.SetValue", x.isNil(x.m(x.typ(qryPkg, "Column"), set, "SetValue", c.v)), "the value is set without an error")
				where := x.qCond(x.wrap(x.fn(qryPkg, "NewCmpExprWith", x.pkgConst(qryPkg, "EQ"), x.fn(qryPkg, "NewColumnWithName", e.str("c")), lit())))
				x.rendered("insert", "Insert", x.fn(qryPkg, "NewInsertWith", x.qTable("t1"), x.slice(x.slice(col("a"), x.qVal("b", "'x'"), set))), "INSERT INTO t1 (a, b, d) VALUES ("+c.want+", 'x', "+c.want+")")
				x.rendered("update", "Update", x.fn(qryPkg, "NewUpdateWith", x.qTable("t1"), x.slice(col("a"), set), where), "UPDATE t1 SET a = "+c.want+", d = "+c.want+" WHERE c = "+c.want)
				x.rendered("delete", "Delete", x.fn(qryPkg, "NewDeleteWith", x.qTable("t1"), where, x.slice()), "DELETE FROM t1 WHERE c = "+c.want)
			})
		}
		for _, o := range []string{"+", "-", "*", "/", "%"} {
			o := o
			r.scenario("SET with "+o, func(x *X) {
				ex := x.fn(fnPkg, "NewArithOperatorFor", e.str(o), x.slice(x.fn(fnPkg, "WithExecutorArguments", x.slice(e.iface(types.Typ[types.String], e.str("b")), e.iface(types.Typ[types.String], e.str("2"))))))
				x.holds("operator", "sql/fn NewArithOperatorFor", x.isNil(x.at(ex, 1)), "the operator %s is refused", o)
				col := x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str("a")), x.fn(qryPkg, "WithColumnFunctionExecutor", x.at(ex, 0)), x.fn(qryPkg, "WithColumnArguments", x.strs("b", "2"))))
				x.rendered("set", "Update", x.fn(qryPkg, "NewUpdateWith", x.qTable("t1"), x.slice(x.qVal("c", "1"), col), x.qCond(x.qCmp("EQ", "x", "1"))), "UPDATE t1 SET c = 1, a = b "+o+" 2 WHERE x = 1")
			})
		}
		// SELECT with every combination of clauses
		for m := 0; m < 32; m++ {
			m := m
			r.scenario(fmt.Sprintf("SELECT clauses %05b", m), func(x *X) {
				var os []*T
				want := "SELECT a, SUM(b) FROM t1, sc.t2"
				w := x.qCond(nil)
				if m&1 != 0 {
					w = x.qCond(x.qCmp("NEQ", "x", "'y'"))
					want += " WHERE x != 'y'"
				}
				if m&2 != 0 {
					os = append(os, x.fn(qryPkg, "WithSelectGroupBy", e.str("a")))
					want += " GROUP BY a"
				}
				if m&4 != 0 {
					ord := x.slice(x.fn(qryPkg, "NewOrderWith", e.str("a"), x.pkgConst(qryPkg, "OrderAsc")), x.fn(qryPkg, "NewOrderWith", e.str("c"), x.pkgConst(qryPkg, "OrderDesc")))
					os = append(os, x.fn(qryPkg, "WithSelectOrderBy", x.fn(qryPkg, "NewOrderByWith", ord)))
					want += " ORDER BY a ASC, c DESC"
				}
				if m&8 != 0 {
					off := "0"
					if m&16 != 0 {
						off = "7"
					}
					os = append(os, x.fn(qryPkg, "WithSelectLimit", x.uint(off), x.uint("5")))
					want += " LIMIT 5"
					if off != "0" {
						want += " OFFSET " + off
					}
				}
				sels := x.slice(x.qNamed("a")[0], x.fnCall("sum", "b"))
				x.rendered("text", "Select", x.fn(qryPkg, "NewSelectWith", sels, x.qTables("t1", "sc.t2"), w, x.slice(os...)), want)
			})
		}
		r.scenario("SELECT with an offset only", func(x *X) {
			x.rendered("text", "Select", x.fn(qryPkg, "NewSelectWith", x.slice(x.qNamed("a")...), x.qTables("t1"), x.qCond(nil), x.slice(x.fn(qryPkg, "WithSelectLimit", x.uint("3"), x.uint("0")))), "SELECT a FROM t1 LIMIT 0 OFFSET 3")
		})
		r.scenario("CREATE TABLE of a schema", func(x *X) {
			sc := x.fn(qryPkg, "NewSchemaWith", e.str("t1"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(x.qDef("a", "IntType", -1))), x.fn(qryPkg, "WithSchemaName", e.str("sc"))))
			x.rendered("text", "CreateTable", x.fn(qryPkg, "NewCreateTableWith", sc, x.ifne(false)), "CREATE TABLE sc.t1 (a INT)")
		})
		r.scenario("SELECT of everything", func(x *X) {
			x.rendered("none", "Select", x.fn(qryPkg, "NewSelectWith", x.slice(), x.qTables("t1"), x.qCond(nil), x.slice()), "SELECT * FROM t1")
			x.rendered("star", "Select", x.fn(qryPkg, "NewSelectWith", x.slice(x.qNamed("*")...), x.qTables("t1"), x.qCond(nil), x.slice()), "SELECT * FROM t1")
			x.rendered("count", "Select", x.fn(qryPkg, "NewSelectWith", x.slice(x.fnCall("COUNT", "*"), x.fnCall("MOD", "a", "2"), x.fnCall("NOW")), x.qTables("t1"), x.qCond(nil), x.slice()), "SELECT COUNT(*), MOD(a, 2), NOW() FROM t1")
		})
		// COPY
		for _, f := range []string{"", "text", "CSV", "binary"} {
			for n := 0; n <= 2; n++ {
				f, n := f, n
				r.scenario(fmt.Sprintf("COPY of %d columns, format %q", n, f), func(x *X) {
					var os []*T
					want := "COPY t1"
					if n > 0 {
						os = append(os, x.fn(qryPkg, "WithCopyColumns", x.slice(x.qNamed([]string{"a", "b"}[:n]...)...)))
						want += " (" + strings.Join([]string{"a", "b"}[:n], ", ") + ")"
					}
					if f != "" {
						os = append(os, x.fn(qryPkg, "WithCopyFormat", e.str(f)))
					}
					fm := strings.ToUpper(f)
					if fm == "" {
						fm = "TEXT"
					}
					x.rendered("stdin", "Copy", x.fn(qryPkg, "NewCopyWith", e.str("t1"), e.str("STDIN"), x.slice(os...)), want+" FROM STDIN "+fm)
					for _, src := range []string{"/tmp/data.csv", "it's", "a b"} {
						x.rendered("file "+src, "Copy", x.fn(qryPkg, "NewCopyWith", e.str("t1"), e.str(src), x.slice(os...)), want+" FROM '"+strings.ReplaceAll(src, "'", "''")+"' "+fm)
					}
				})
			}
		}
	})
}
