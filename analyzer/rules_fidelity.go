package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C05", checkSelect)
	register("C06", checkDML)
	register("C07", checkDDL)
	register("C08", checkExtra)
	register("C09", checkWhere)
}

// fid checks one public access path of one statement kind.
func (r *Run) fid(acc, path string, exp func(s *stmtView) *T, opts ...func(*fidOpt)) {
	o := &fidOpt{}
	for _, f := range opts {
		f(o)
	}
	s := r.stmt(acc)
	key := acc + "|" + path + o.tag
	if s == nil {
		r.bad(key, acc, "no statement of this kind is produced")
		return
	}
	t := r.p.typ("sql/query", kindOf(acc).typ)
	if t == nil {
		r.anchor("sql/query." + kindOf(acc).typ)
		return
	}
	st := s.st.clone()
	if o.when != nil {
		st.pc = r.e.sat(r.e.and(st.pc, o.when(s)))
		if st.pc == r.e.False && o.reject {
			r.ok("%s: rejected", key)
			return
		}
		if st.pc == r.e.False {
			r.bad(key, acc, "the statement is rejected although the query is valid in this case")
			return
		}
	}
	if o.dyn {
		t = nil // the dynamic type answers
	} else if missing := r.missingStep(t, path); missing != "" {
		r.anchor("sql/query." + kindOf(acc).typ + "." + missing)
		return
	}
	pc := st.pc
	val := r.e.simp(r.e.view(st, t, s.v, path), pc)
	r.count("access_paths", 1)
	r.same(key, acc+" "+path, val, exp(s), pc, o.spec)
}

// mustReject: statements with a clause that no accessor can show are rejected.
func (r *Run) mustReject(acc, tag string, cond func(s *stmtView) *T) {
	s := r.stmt(acc)
	key := acc + "|clause dropped: " + tag
	if s == nil {
		r.ok("%s", key)
		return
	}
	g := r.e.sat(r.e.and(s.st.pc, cond(s)))
	if g == r.e.False {
		r.ok("%s: rejected", key)
	} else if r.e.definiteCase(g) {
		r.bad(key, acc, "a query with %s is accepted although the statement cannot represent it, when %s", tag, r.e.witness(g))
	} else {
		r.unknown("%s", key)
	}
}

// missingStep returns the first method of a path that does not exist.
func (r *Run) missingStep(t types.Type, path string) string {
	i := strings.Index(path, "(")
	if i <= 0 {
		return ""
	}
	if o, _, _ := types.LookupFieldOrMethod(t, true, nil, path[:i]); o == nil {
		return path[:i]
	}
	return ""
}

type fidOpt struct {
	when   func(s *stmtView) *T
	spec   func(*T) int
	tag    string
	reject bool
	dyn    bool
}

// dynamic: the method belongs to the dynamic type of the statement only.
func dynamic(o *fidOpt) { o.dyn = true }

// rejectable: the query may be rejected instead.
func rejectable(o *fidOpt) { o.reject = true }

func when(tag string, f func(s *stmtView) *T) func(*fidOpt) {
	return func(o *fidOpt) { o.when = f; o.tag = " [" + tag + "]" }
}

func specialised(f func(*T) int) func(*fidOpt) { return func(o *fidOpt) { o.spec = f } }

// txt expects the text found under the accessor path.
func (r *Run) txt(p string) func(s *stmtView) *T {
	return func(s *stmtView) *T { return r.e.text(r.e.path(s.S, p)) }
}

// has expects the presence of the accessor path.
func (r *Run) has(p string) func(s *stmtView) *T {
	return func(s *stmtView) *T { return r.e.present(r.e.path(s.S, p)) }
}

// opt expects the text when present and alt otherwise.
func (r *Run) opt(p string, alt *T) func(s *stmtView) *T {
	return func(s *stmtView) *T {
		n := r.e.path(s.S, p)
		return r.e.ite(r.e.eq(n, r.e.Nil), alt, r.e.text(n))
	}
}

// texts expects the texts of the listed children, in order.
func (r *Run) texts(list, sub string) func(s *stmtView) *T {
	return func(s *stmtView) *T {
		e := r.e
		i := strings.LastIndex(list, ".")
		n := s.S
		g := e.True
		if i >= 0 {
			n = e.path(s.S, list[:i])
			g = e.present(n)
		}
		d := e.acc(n, list[i+1:])
		return e.seq(e.guardParts(g, e.mapSeq(d, e.True, e.text(e.path(e.elemVar(d), sub))).args)...)
	}
}

func (r *Run) konst(name string) *T {
	c := r.p.constant("sql/query", name)
	if c == nil {
		r.anchor("sql/query." + name)
		return r.e.specAny()
	}
	return r.e.constant(c, nil)
}

func (r *Run) fidelityRule(what string) {
	r.rule("value flow from the parse tree of an arbitrary accepted query to the public accessors of the returned statement: " + what)
	r.note("values are compared up to removal of enclosing quotes")
}

// ---------------------------------------------------------------- SELECT

func checkSelect(r *Run) {
	if !r.parse() {
		return
	}
	r.fidelityRule("selectors, FROM tables, GROUP BY, ORDER BY and LIMIT of SELECT")
	e := r.e
	A := "Select_stmt"
	core := func(s *stmtView) *T { return e.acc(s.S, "GetParentQuery") }
	isCore := when("select core", func(s *stmtView) *T { return e.present(core(s)) })
	cols := func(s *stmtView) *T { return e.acc(core(s), "AllResult_column") }
	fnOf := func(s *stmtView) *T { return e.path(e.elemVar(cols(s)), "Expr.Function") }
	isFn := func(s *stmtView) *T {
		return e.and(e.present(e.path(e.elemVar(cols(s)), "Expr")), e.present(fnOf(s)))
	}
	r.fid(A, "Selectors()[].Name()", func(s *stmtView) *T {
		return e.mapSeq(cols(s), e.True, e.ite(isFn(s), e.specFold(e.text(e.acc(fnOf(s), "Function_name"))), e.text(e.elemVar(cols(s)))))
	}, isCore)
	r.fid(A, "Selectors()[].IsFunction()", func(s *stmtView) *T {
		return e.mapSeq(cols(s), e.True, isFn(s))
	}, isCore)
	r.fid(A, "Selectors()[].Function()#1", func(s *stmtView) *T {
		return e.mapSeq(cols(s), e.True, isFn(s))
	}, isCore)
	r.fid(A, "Selectors()[].Arguments()[].String()", func(s *stmtView) *T {
		f := fnOf(s)
		star := e.acc(f, "STAR")
		args := e.acc(f, "AllExpr")
		in := e.seq(e.elem(e.and(isFn(s), e.present(star)), e.text(star)),
			e.loopPart(e.and(isFn(s), e.not(e.present(star))), args, e.seq(e.elem(e.True, e.text(e.elemVar(args))))))
		return e.mapSeq(cols(s), e.True, in)
	}, isCore)
	from := func(s *stmtView) *T { return e.acc(core(s), "AllFrom") }
	ft := func(s *stmtView) *T { return e.path(e.elemVar(from(s)), "From_table") }
	r.fid(A, "From()[].TableName()", func(s *stmtView) *T {
		return e.mapSeq(from(s), e.present(ft(s)), e.text(e.acc(ft(s), "Table_name")))
	}, isCore)
	r.fid(A, "From()[].SchemaName()", func(s *stmtView) *T {
		sn := e.acc(ft(s), "Schema_name")
		return e.mapSeq(from(s), e.present(ft(s)), e.ite(e.present(sn), e.text(sn), e.str("")))
	}, isCore)
	// no FROM item may vanish
	r.fid(A, "From()[].IsTableName(x)", func(s *stmtView) *T {
		return e.mapSeq(from(s), e.True, e.specAny())
	}, isCore)
	gb := func(s *stmtView) *T { return e.acc(core(s), "GetGroupByExpr") }
	r.fid(A, "GroupBy().ColumnName()", func(s *stmtView) *T {
		return e.text(e.seqIndex(e.seqOfVal(gb(s)), e.intc(0)))
	}, when("grouped", func(s *stmtView) *T { return e.and(e.present(core(s)), e.not(e.emptyDom(gb(s)))) }))
	r.fid(A, "GroupBy().ColumnName()", func(s *stmtView) *T { return e.str("") },
		when("not grouped", func(s *stmtView) *T { return e.and(e.present(core(s)), e.emptyDom(gb(s))) }))
	ob := func(s *stmtView) *T { return e.acc(s.S, "Order_by_stmt") }
	ot := func(s *stmtView) *T { return e.acc(ob(s), "AllOrdering_term") }
	ordered := when("ordered", func(s *stmtView) *T { return e.present(ob(s)) })
	r.fid(A, "OrderBy().Orders()[].ColumnName()", func(s *stmtView) *T {
		return e.mapSeq(ot(s), e.True, e.text(e.acc(e.elemVar(ot(s)), "Expr")))
	}, ordered)
	ad := func(s *stmtView) *T { return e.acc(e.elemVar(ot(s)), "Asc_desc") }
	isDesc := func(s *stmtView) *T {
		return e.and(e.present(ad(s)), e.eq(e.upper(e.text(ad(s))), e.str("DESC")))
	}
	r.fid(A, "OrderBy().Orders()[].Type()", func(s *stmtView) *T {
		return e.mapSeq(ot(s), e.True, e.ite(isDesc(s), r.konst("OrderDesc"), r.konst("OrderAsc")))
	}, ordered)
	r.fid(A, "OrderBy().Orders()[].IsDesc()", func(s *stmtView) *T {
		return e.mapSeq(ot(s), e.True, isDesc(s))
	}, ordered)
	r.fid(A, "OrderBy().Orders()[].IsAsc()", func(s *stmtView) *T {
		return e.mapSeq(ot(s), e.True, e.not(isDesc(s)))
	}, ordered)
	r.fid(A, "OrderBy().Orders()[].ColumnName()", func(s *stmtView) *T { return e.seq() },
		when("not ordered", func(s *stmtView) *T { return e.not(e.present(ob(s))) }))
	ls := func(s *stmtView) *T { return e.acc(s.S, "Limit_stmt") }
	lx := func(s *stmtView, i int) *T { return e.app("index", e.acc(ls(s), "AllExpr"), e.intc(i)) }
	one := func(s *stmtView) *T { return e.not(e.lt(e.intc(1), e.lenOf(e.acc(ls(s), "AllExpr")))) }
	comma := func(s *stmtView) *T { return e.present(e.acc(ls(s), "COMMA")) }
	single := when("LIMIT n", func(s *stmtView) *T { return e.and(e.present(ls(s)), one(s)) })
	pairO := when("LIMIT n OFFSET m", func(s *stmtView) *T {
		return e.and(e.present(ls(s)), e.and(e.not(one(s)), e.not(comma(s))))
	})
	pairC := when("LIMIT m, n", func(s *stmtView) *T {
		return e.and(e.present(ls(s)), e.and(e.not(one(s)), comma(s)))
	})
	r.fid(A, "Limit().Limit()", func(s *stmtView) *T { return e.specFrom(lx(s, 0)) }, single)
	r.fid(A, "Limit().Offset()", func(s *stmtView) *T { return e.intc(0) }, single)
	r.fid(A, "Limit().Limit()", func(s *stmtView) *T { return e.specFrom(lx(s, 0)) }, pairO)
	r.fid(A, "Limit().Offset()", func(s *stmtView) *T { return e.specFrom(lx(s, 1)) }, pairO)
	r.fid(A, "Limit().Limit()", func(s *stmtView) *T { return e.specFrom(lx(s, 1)) }, pairC)
	r.fid(A, "Limit().Offset()", func(s *stmtView) *T { return e.specFrom(lx(s, 0)) }, pairC)
	// clauses a Select cannot represent may not be dropped
	for _, c := range []struct {
		tag string
		f   func(s *stmtView) *T
	}{
		{"DISTINCT", func(s *stmtView) *T { return e.and(e.present(core(s)), e.present(e.acc(core(s), "DISTINCT_"))) }},
		{"JOIN", func(s *stmtView) *T { return e.and(e.present(core(s)), e.present(e.acc(core(s), "Join_clause"))) }},
		{"HAVING", func(s *stmtView) *T { return e.and(e.present(core(s)), e.present(e.acc(core(s), "GetHavingExpr"))) }},
		{"WINDOW", func(s *stmtView) *T { return e.and(e.present(core(s)), e.present(e.acc(core(s), "WINDOW_"))) }},
		{"compound operator", func(s *stmtView) *T { return e.not(e.emptyDom(e.acc(s.S, "AllCompound_operator"))) }},
		{"WITH", func(s *stmtView) *T { return e.present(e.acc(s.S, "Common_table_stmt")) }},
		{"second GROUP BY key", func(s *stmtView) *T { return e.and(e.present(core(s)), e.lt(e.intc(1), e.lenOf(gb(s)))) }},
	} {
		r.mustReject(A, c.tag, c.f)
	}
	// a LIMIT the statement cannot represent may not be read as "no limit"
	r.fid(A, "Limit().Limit()", func(s *stmtView) *T { return e.app("spec:not", e.intc(0)) }, when("LIMIT that is not a number", func(s *stmtView) *T {
		x := e.eq(e.app("call:github.com/cybergarage/go-safecast/safecast.ToUint", e.text(lx(s, 0)), e.sym("&out", nil)), e.Nil)
		return e.and(e.present(ls(s)), e.and(one(s), e.not(x)))
	}))
	r.fid(A, "Limit().Limit()", func(s *stmtView) *T { return e.intc(0) }, when("no LIMIT", func(s *stmtView) *T { return e.not(e.present(ls(s))) }))
	r.fid(A, "Limit().Offset()", func(s *stmtView) *T { return e.intc(0) }, when("no LIMIT", func(s *stmtView) *T { return e.not(e.present(ls(s))) }))
}

// ---------------------------------------------------------------- INSERT, UPDATE, DELETE

// litVal expects the value of a literal_value node.
func (r *Run) litVal(n *T) *T {
	e := r.e
	sl := e.acc(n, "String_literal")
	return e.ite(e.present(sl), e.text(sl), e.text(n))
}

func (r *Run) litType(n *T) *T {
	e := r.e
	return e.ite(e.present(e.acc(n, "String_literal")), r.konst("StringLiteral"), r.konst("UnknownLiteral"))
}

func checkDML(r *Run) {
	if !r.parse() {
		return
	}
	r.fidelityRule("table, column names, values (one per expression, row by row) and their kinds of INSERT, UPDATE and DELETE")
	e := r.e
	r.inputIsQuery("INSERT")
	I := "Insert_stmt"
	r.fid(I, "TableName()", r.txt("Table_name"))
	r.fid(I, "SchemaName()", r.opt("Schema_name", e.str("")), dynamic)
	rows := func(s *stmtView) *T { return e.path(s.S, "Values_clause.AllValue_row") }
	exprs := func(s *stmtView) *T { return e.acc(e.elemVar(rows(s)), "AllExpr") }
	x := func(s *stmtView) *T { return e.elemVar(exprs(s)) }
	cmp := func(s *stmtView) *T { return e.acc(x(s), "Comparison_expr") }
	lit := func(s *stmtView) *T { return e.acc(x(s), "Literal_value") }
	bnd := func(s *stmtView) *T { return e.acc(x(s), "Bind_param") }
	names := func(s *stmtView) *T {
		d := e.acc(s.S, "AllColumn_name")
		return e.mapSeq(d, e.True, e.text(e.elemVar(d)))
	}
	perRow := func(s *stmtView, v *T) *T {
		return e.mapSeq(rows(s), e.True, e.mapSeq(exprs(s), e.True, v))
	}
	pos := func(s *stmtView) *T {
		return e.app("countbefore", e.idxVar(exprs(s)), e.not(e.present(cmp(s))))
	}
	r.fid(I, "Values()[][].Name()", func(s *stmtView) *T {
		return perRow(s, e.ite(e.present(cmp(s)), e.text(e.acc(cmp(s), "Column_name")), e.app("index", names(s), pos(s))))
	})
	r.fid(I, "Values()[][].Value()", func(s *stmtView) *T {
		return perRow(s, e.ite(e.present(cmp(s)), r.litVal(e.acc(cmp(s), "Literal_value")),
			e.ite(e.present(lit(s)), r.litVal(lit(s)), e.specAny())))
	})
	r.fid(I, "Values()[][].Value().Name()", func(s *stmtView) *T {
		return perRow(s, e.ite(e.and(e.not(e.present(cmp(s))), e.and(e.not(e.present(lit(s))), e.present(bnd(s)))), e.text(bnd(s)), e.specAny()))
	})
	r.fid(I, "Values()[][].ValueType()", func(s *stmtView) *T {
		return perRow(s, e.ite(e.present(cmp(s)), r.litType(e.acc(cmp(s), "Literal_value")),
			e.ite(e.present(lit(s)), r.litType(lit(s)), e.specAny())))
	})
	r.fid(I, "Values()[][].HasValue()", func(s *stmtView) *T { return perRow(s, e.True) })

	U := "Update_stmt"
	sets := func(s *stmtView) *T { return e.acc(s.S, "AllUpdate_column_set") }
	sx := func(s *stmtView) *T { return e.acc(e.elemVar(sets(s)), "Expr") }
	ul := func(s *stmtView) *T { return e.acc(sx(s), "Literal_value") }
	ub := func(s *stmtView) *T { return e.acc(sx(s), "Bind_param") }
	ua := func(s *stmtView) *T { return e.acc(sx(s), "Arithmetic_expr") }
	each := func(s *stmtView, v *T) *T { return e.mapSeq(sets(s), e.True, v) }
	r.fid(U, "TableName()", r.txt("GetTable.Table_name"))
	r.fid(U, "Table().SchemaName()", r.opt("GetTable.Schema_name", e.str("")), dynamic)
	r.fid(U, "Columns()[].Name()", func(s *stmtView) *T { return each(s, e.text(e.acc(e.elemVar(sets(s)), "Column_name"))) })
	r.fid(U, "Columns()[].Value()", func(s *stmtView) *T {
		return each(s, e.ite(e.present(ul(s)), r.litVal(ul(s)), e.specAny()))
	})
	r.fid(U, "Columns()[].ValueType()", func(s *stmtView) *T {
		return each(s, e.ite(e.present(ul(s)), r.litType(ul(s)), e.specAny()))
	})
	r.fid(U, "Columns()[].Value().Name()", func(s *stmtView) *T {
		return each(s, e.ite(e.and(e.not(e.present(ul(s))), e.present(ub(s))), e.text(ub(s)), e.specAny()))
	})
	isArith := func(s *stmtView) *T {
		return e.and(e.not(e.present(ul(s))), e.and(e.not(e.present(ub(s))), e.present(ua(s))))
	}
	r.fid(U, "Columns()[].IsFunction()", func(s *stmtView) *T { return each(s, isArith(s)) })
	r.fid(U, "Columns()[].Function()#0.Name()", func(s *stmtView) *T {
		op := e.specAny()
		for _, o := range [][2]string{{"PLUS", "+"}, {"MINUS", "-"}, {"STAR", "*"}, {"DIV", "/"}, {"MOD", "%"}} {
			op = e.ite(e.present(e.acc(ua(s), o[0])), e.str(o[1]), op)
		}
		return each(s, e.ite(isArith(s), op, e.specAny()))
	})
	r.fid(U, "Columns()[].Arguments()[].String()", func(s *stmtView) *T {
		in := e.seq(e.elem(isArith(s), e.text(e.acc(ua(s), "Column_name"))), e.elem(isArith(s), e.text(e.acc(ua(s), "Expr"))))
		return each(s, in)
	})
	r.fid("Delete_stmt", "TableName()", r.txt("GetTable.Table_name"))
	r.fid("Delete_stmt", "Table().SchemaName()", r.opt("GetTable.Schema_name", e.str("")), dynamic)
}

// ---------------------------------------------------------------- DDL

// notKeyword specialises column definitions to names that are not the
// keywords of table constraints (read as columns for MySQL compatibility).
func (r *Run) notKeyword(a *T) int {
	if a.op != OEq && !(a.op == OApp && a.name == "strings.EqualFold") {
		return -1
	}
	kw := map[string]bool{"PRIMARY": true, "KEY": true, "UNIQUE": true, "INDEX": true, "CONSTRAINT": true}
	for i := 0; i < 2; i++ {
		s, ok := a.args[i].isStr()
		if ok && kw[strings.ToUpper(s)] {
			for _, n := range sources(a.args[1-i]) {
				if n.op == OApp && n.name == "g:Column_name" && r.p.ruleOf(r.e, n.args[0]) == "column_def" {
					return 0
				}
			}
		}
	}
	return -1
}

func checkDDL(r *Run) {
	if !r.parse() {
		return
	}
	r.fidelityRule("names, flags, columns, types and indexes of CREATE, DROP and ALTER statements")
	e := r.e
	r.fid("Create_database_stmt", "DatabaseName()", r.txt("Database_name"))
	r.fid("Create_database_stmt", "IfNotExists()", r.has("If_not_exists"))
	r.fid("Drop_database_stmt", "DatabaseName()", r.txt("Database_name"))
	r.fid("Drop_database_stmt", "IfExists()", r.has("If_exists"))
	r.fid("Alter_database_stmt", "DatabaseName()", r.txt("Database_name"))
	r.fid("Alter_database_stmt", "RenameTo().DatabaseName()", r.txt("Rename_database_to.GetNew_database_name"))

	CT := "Create_table_stmt"
	nk := specialised(r.notKeyword)
	r.fid(CT, "TableName()", r.txt("Table_name"))
	r.fid(CT, "Schema().TableName()", r.txt("Table_name"))
	r.fid(CT, "Schema().SchemaName()", r.opt("Schema_name", e.str("")))
	r.fid(CT, "IfNotExists()", r.has("If_not_exists"))
	cd := func(s *stmtView) *T { return e.acc(s.S, "AllColumn_def") }
	r.fid(CT, "Schema().Columns()[].Name()", func(s *stmtView) *T {
		return e.mapSeq(cd(s), e.True, e.text(e.acc(e.elemVar(cd(s)), "Column_name")))
	}, nk)
	// column types are decided by the first word of the type name
	tn := func(s *stmtView) *T { return e.acc(e.elemVar(cd(s)), "Type_name") }
	r.fid(CT, "Schema().Columns()[].DataType()", func(s *stmtView) *T {
		return e.mapSeq(cd(s), e.True, e.ite(e.present(tn(s)), e.app("spec:dep", e.acc(tn(s), "AllName")), e.specAny()))
	}, nk)
	r.fid(CT, "Schema().Columns()[].DataTypeSize()", func(s *stmtView) *T {
		return e.mapSeq(cd(s), e.True, e.ite(e.and(e.present(tn(s)), e.present(e.acc(tn(s), "OPEN_PAR"))), e.app("spec:dep", e.acc(tn(s), "AllSigned_number")), e.specAny()))
	}, nk)
	cc := func(s *stmtView) *T { return e.acc(e.elemVar(cd(s)), "AllColumn_constraint") }
	tc := func(s *stmtView) *T { return e.acc(s.S, "AllTable_constraint") }
	pk := func(s *stmtView) *T { return e.acc(e.elemVar(tc(s)), "Primary_key_def") }
	ic := func(s *stmtView) *T { return e.acc(pk(s), "AllIndexed_column") }
	idx := func(s *stmtView, a, b *T) *T {
		return e.seq(
			e.loopPart(e.True, cd(s), e.mapSeq(cc(s), e.present(e.acc(e.elemVar(cc(s)), "Primary_key_constraint")), a)),
			e.loopPart(e.True, tc(s), e.seq(e.elem(e.present(pk(s)), b))))
	}
	r.fid(CT, "Schema().Indexes()[].Type()", func(s *stmtView) *T {
		return idx(s, r.konst("PrimaryIndex"), r.konst("PrimaryIndex"))
	}, nk)
	r.fid(CT, "Schema().Indexes()[].Columns()[].Name()", func(s *stmtView) *T {
		return idx(s, e.seq(e.elem(e.True, e.text(e.acc(e.elemVar(cd(s)), "Column_name")))),
			e.mapSeq(ic(s), e.True, e.text(e.acc(e.elemVar(ic(s)), "Column_name"))))
	}, nk)

	X := "Create_index_stmt"
	r.fid(X, "TableName()", r.txt("Table_name"))
	r.fid(X, "IfNotExists()", r.has("If_not_exists"))
	r.fid(X, "Index().Name()", r.txt("Index_name"))
	r.fid(X, "Index().Type()", func(s *stmtView) *T { return r.konst("SecondaryIndex") })
	r.fid(X, "Index().Columns()[].Name()", r.texts("AllIndexed_column", "Column_name"))
	r.fid("Drop_table_stmt", "Tables()[].TableName()", r.texts("AllTable_name", ""))
	r.fid("Drop_table_stmt", "TableNames()", r.texts("AllTable_name", ""))
	r.fid("Drop_table_stmt", "IfExists()", r.has("If_exists"))
	r.fid("Drop_index_stmt", "IndexName()", r.txt("Index_name"))
	r.fid("Drop_index_stmt", "Index().Name()", r.txt("Index_name"))
	r.fid("Drop_index_stmt", "IfExists()", r.has("If_exists"))
	r.fid("Drop_index_stmt", "TableName()", r.opt("Schema_name", e.str("")))

	A := "Alter_table_stmt"
	pr := func(n string) func(*fidOpt) {
		return when(n, func(s *stmtView) *T { return e.present(e.acc(s.S, n)) })
	}
	r.fid(A, "TableName()", r.txt("GetTarget_table_name"))
	r.fid(A, "SchemaName()", r.opt("Schema_name", e.str("")), dynamic)
	r.fid(A, "RenameTo()#1", r.has("Rename_table_to"))
	r.fid(A, "RenameTo()#0.TableName()", r.txt("Rename_table_to.Table_name"), pr("Rename_table_to"))
	r.fid(A, "RenameColumns()#2", r.has("Rename_table_colum"))
	r.fid(A, "RenameColumns()#0.Name()", r.txt("Rename_table_colum.GetOld_column_name"), pr("Rename_table_colum"))
	r.fid(A, "RenameColumns()#1.Name()", r.txt("Rename_table_colum.GetNew_column_name"), pr("Rename_table_colum"))
	r.fid(A, "AddColumn()#1", r.has("Add_table_column"), nk)
	r.fid(A, "AddColumn()#0.Name()", r.txt("Add_table_column.Column_def.Column_name"), pr("Add_table_column"), nk)
	r.fid(A, "DropColumn()#1", r.has("Drop_table_column"))
	r.fid(A, "DropColumn()#0.Name()", r.txt("Drop_table_column.Column_name"), pr("Drop_table_column"))
	r.fid(A, "AddIndex()#1", r.has("Add_table_index"))
	con := func(s *stmtView, n string) *T { return e.path(s.S, "Add_table_index.Column_constraint."+n) }
	r.fid(A, "AddIndex()#0.Type()", func(s *stmtView) *T {
		return e.ite(e.present(con(s, "Primary_key_constraint")), r.konst("PrimaryIndex"),
			e.ite(e.present(con(s, "Index_constraint")), r.konst("SecondaryIndex"), e.specAny()))
	}, pr("Add_table_index"))
	r.fid(A, "AddIndex()#0.Name()", func(s *stmtView) *T {
		i := con(s, "Index_constraint")
		return e.ite(e.present(i), e.text(e.acc(i, "Index_name")), e.specAny())
	}, pr("Add_table_index"))
	r.fid(A, "AddIndex()#0.Columns()[].Name()", r.texts("Add_table_index.AllColumn_name", ""), pr("Add_table_index"))
	r.fid(A, "DropIndex()#1", func(s *stmtView) *T { return e.False })
}

// ---------------------------------------------------------------- COPY, TRUNCATE, VACUUM, USE

func checkExtra(r *Run) {
	if !r.parse() {
		return
	}
	r.fidelityRule("tables, columns, source and format of COPY; tables of TRUNCATE and VACUUM; database of USE")
	e := r.e
	C := "Copy_stmt"
	r.fid(C, "TableName()", r.txt("GetTable"))
	r.fid(C, "Columns()[].Name()", r.texts("Copy_column_list.AllColumn_name", ""))
	r.fid(C, "Source()", r.txt("Source_name"), dynamic)
	cf := func(s *stmtView) *T { return e.acc(s.S, "Copy_format") }
	r.fid(C, "Format()", func(s *stmtView) *T { return r.konst("CopyFormatText") }, dynamic, when("no format", func(s *stmtView) *T { return e.not(e.present(cf(s))) }))
	for _, f := range [][2]string{{"TEXT_", "CopyFormatText"}, {"CSV_", "CopyFormatCSV"}, {"BINARY_", "CopyFormatBinary"}} {
		f := f
		r.fid(C, "Format()", func(s *stmtView) *T { return r.konst(f[1]) }, dynamic, when("format "+f[0], func(s *stmtView) *T {
			return e.and(e.present(cf(s)), e.present(e.acc(cf(s), f[0])))
		}))
	}
	r.fid("Truncate_stmt", "Tables()[].TableName()", r.texts("AllTable_name", ""))
	r.fid("Truncate_stmt", "TableNames()", r.texts("AllTable_name", ""))
	r.fid("Vacuum_stmt", "TableName()", r.opt("Schema_name", e.str("")))
	r.fid("Vacuum_stmt", "Table().TableName()", r.txt("Schema_name"), when("table", func(s *stmtView) *T { return e.present(e.acc(s.S, "Schema_name")) }))
	r.fid("Use_stmt", "DatabaseName()", r.txt("Database_name"))
}

// ---------------------------------------------------------------- WHERE

func checkWhere(r *Run) {
	if !r.parse() {
		return
	}
	r.fidelityRule("the WHERE expression of SELECT, UPDATE and DELETE: its shape, operators, operands and presence")
	e := r.e
	ops := [][2]string{{"ASSIGN", "EQ"}, {"NOT_EQ1", "NEQ"}, {"NOT_EQ2", "NEQ"}, {"LT", "LT"}, {"GT", "GT"}, {"LT_EQ", "LE"}, {"GT_EQ", "GE"}}
	for _, k := range []struct{ acc, where string }{{"Select_stmt", "GetParentQuery.GetWhereExpr"}, {"Update_stmt", "GetWhereExpr"}, {"Delete_stmt", "GetWhereExpr"}} {
		k := k
		w := func(s *stmtView) *T { return e.path(s.S, k.where) }
		has := func(s *stmtView) *T {
			g := e.True
			if k.acc == "Select_stmt" {
				g = e.present(e.acc(s.S, "GetParentQuery"))
			}
			return e.and(g, e.present(w(s)))
		}
		simple := func(s *stmtView) *T {
			return e.or(e.present(e.acc(w(s), "Comparison_expr")), e.or(e.present(e.acc(w(s), "And_expr")), e.present(e.acc(w(s), "Or_expr"))))
		}
		r.fid(k.acc, "Where().HasConditions()", func(s *stmtView) *T { return e.True }, when("comparison, AND or OR", func(s *stmtView) *T { return e.and(has(s), simple(s)) }))
		r.fid(k.acc, "Where().HasConditions()", func(s *stmtView) *T { return e.False }, when("no WHERE", func(s *stmtView) *T { return e.not(has(s)) }))
		r.fid(k.acc, "Where().HasConditions()", func(s *stmtView) *T { return e.True }, when("other condition", func(s *stmtView) *T { return e.and(has(s), e.not(simple(s))) }), rejectable)
		if k.acc == "Delete_stmt" {
			r.fid(k.acc, "HasConditions()", func(s *stmtView) *T { return has(s) })
		}
		op := func(c *T) *T {
			v := e.specAny()
			for _, o := range ops {
				v = e.ite(e.present(e.acc(c, o[0])), r.konst(o[1]), v)
			}
			return v
		}
		leafs := func(pre string, cond func(s *stmtView) *T, tag string, c func(s *stmtView) *T) {
			wh := when(tag, func(s *stmtView) *T { return e.and(has(s), cond(s)) })
			r.fid(k.acc, pre+".Operator()", func(s *stmtView) *T { return op(c(s)) }, wh)
			r.fid(k.acc, pre+".Left().Name()", func(s *stmtView) *T { return e.text(e.acc(c(s), "Column_name")) }, wh)
			r.fid(k.acc, pre+".Right().Value()", func(s *stmtView) *T { return r.litVal(e.acc(c(s), "Literal_value")) }, wh)
			r.fid(k.acc, pre+".Right().ValueType()", func(s *stmtView) *T { return r.litType(e.acc(c(s), "Literal_value")) }, wh)
		}
		leafs("Where().Expr()", func(s *stmtView) *T { return e.present(e.acc(w(s), "Comparison_expr")) }, "comparison", func(s *stmtView) *T { return e.acc(w(s), "Comparison_expr") })
		for _, b := range []string{"And", "Or"} {
			b := b
			in := func(s *stmtView) *T { return e.acc(w(s), b+"_expr") }
			cond := func(s *stmtView) *T { return e.present(in(s)) }
			r.exprType(k.acc, b+"Expr", func(s *stmtView) *T { return e.and(has(s), cond(s)) })
			for _, side := range []string{"Left", "Right"} {
				side := side
				leafs("Where().Expr()."+side+"()", cond, strings.ToUpper(b)+" "+strings.ToLower(side), func(s *stmtView) *T { return e.acc(in(s), "Get"+side) })
			}
		}
		r.exprType(k.acc, "CmpExpr", func(s *stmtView) *T { return e.and(has(s), e.present(e.acc(w(s), "Comparison_expr"))) })
	}
}

// exprType checks the dynamic type of the WHERE expression.
func (r *Run) exprType(acc, typ string, cond func(s *stmtView) *T) {
	e := r.e
	s := r.stmt(acc)
	key := acc + "|Where().Expr() is " + typ
	if s == nil {
		return
	}
	want := r.p.typ("sql/query", typ)
	if want == nil {
		r.anchor("sql/query." + typ)
		return
	}
	st := s.st.clone()
	st.pc = e.sat(e.and(st.pc, cond(s)))
	if st.pc == e.False {
		r.bad(key, acc, "statements with this condition are rejected")
		return
	}
	pc := st.pc
	v := e.restrict(e.view(st, r.p.typ("sql/query", kindOf(acc).typ), s.v, "Where().Expr()"), pc)
	for _, l := range e.leaves(v) {
		g := e.sat(e.and(pc, l.g))
		if g == e.False {
			continue
		}
		switch l.v.op {
		case OIface:
			t := l.v.typ
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if !types.Identical(t, want) {
				r.bad(key, acc+" WHERE", "the condition becomes a %s instead of a %s, when %s", l.v.typ, typ, e.witness(g))
				return
			}
		case ONil:
			r.bad(key, acc+" WHERE", "the condition is lost, when %s", e.witness(g))
			return
		default:
			r.unknown("%s: %s", key, clip(l.v))
			return
		}
	}
	r.ok("%s", key)
}
