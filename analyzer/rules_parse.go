package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// stmtKind ties a grammar statement to its public statement type.
type stmtKind struct {
	acc   string // grammar accessor of sql_stmt
	typ   string // exported interface in sql/query
	konst string // StatementType constant
}

var stmtKinds = []stmtKind{
	{"Create_database_stmt", "CreateDatabase", "CreateDatabaseStatement"},
	{"Create_table_stmt", "CreateTable", "CreateTableStatement"},
	{"Create_index_stmt", "CreateIndex", "CreateIndexStatement"},
	{"Drop_database_stmt", "DropDatabase", "DropDatabaseStatement"},
	{"Drop_table_stmt", "DropTable", "DropTableStatement"},
	{"Drop_index_stmt", "DropIndex", "DropIndexStatement"},
	{"Alter_database_stmt", "AlterDatabase", "AlterDatabaseStatement"},
	{"Alter_table_stmt", "AlterTable", "AlterTableStatement"},
	{"Insert_stmt", "Insert", "InsertStatement"},
	{"Update_stmt", "Update", "UpdateStatement"},
	{"Select_stmt", "Select", "SelectStatement"},
	{"Delete_stmt", "Delete", "DeleteStatement"},
	{"Begin_stmt", "Begin", "BeginStatement"},
	{"Commit_stmt", "Commit", "CommitStatement"},
	{"Rollback_stmt", "Rollback", "RollbackStatement"},
	{"Use_stmt", "Use", "UseStatement"},
	{"Copy_stmt", "Copy", "CopyStatement"},
	{"Truncate_stmt", "Truncate", "TruncateStatement"},
	{"Vacuum_stmt", "Vacuum", "VacuumStatement"},
}

func kindOf(acc string) stmtKind {
	for _, k := range stmtKinds {
		if k.acc == acc {
			return k
		}
	}
	return stmtKind{}
}

// parse builds the abstract result of parsing an arbitrary query.
func (r *Run) parse() bool {
	if r.pm != nil {
		return true
	}
	m, err := r.e.modelParse()
	if err != nil {
		r.anchor("sqlite parser: " + err.Error())
		return false
	}
	r.pm = m
	r.note("generated ANTLR code follows SQLiteParser.g4: a context accessor is nil exactly when the corresponding element is absent, and every sentence outside the grammar is reported to the registered listener")
	return true
}

// stmtView is a generic statement of one kind in the parse result.
type stmtView struct {
	st  *State
	v   *T
	S   *T // grammar node
	val *T
}

// stmt returns the state in which a statement of the kind was parsed
// successfully.
func (r *Run) stmt(acc string) *stmtView {
	e := r.e
	els := e.flatten(r.pm.list)
	if len(els) == 0 {
		return nil
	}
	v, pc := e.Nil, e.False
	var S *T
	for i := len(els) - 1; i >= 0; i-- {
		x := els[i]
		if len(x.doms) == 0 {
			return nil
		}
		s := e.app("g:"+acc, e.elemVar(x.doms[len(x.doms)-1]))
		if S != nil && s != S {
			return nil
		}
		S = s
		g := e.and(x.g, r.pm.ok)
		for _, d := range x.doms {
			g = e.and(g, e.instFacts(g, d))
		}
		v = e.ite(g, x.v, v)
		pc = e.or(pc, g)
	}
	st := r.pm.st.with(e.and(e.and(r.pm.st.pc, pc), e.not(e.eq(S, e.Nil))))
	st.pc = e.sat(st.pc)
	if st.pc == e.False {
		return nil
	}
	return &stmtView{st: st, v: e.restrict(v, st.pc), S: S}
}

// observe evaluates a public access path on the generic statement of a kind.
func (r *Run) observe(acc, path string) *stmtView {
	s := r.stmt(acc)
	if s == nil {
		return &stmtView{val: r.e.top("unavailable")}
	}
	st := s.st.clone()
	t := r.p.typ("sql/query", kindOf(acc).typ)
	s.val = r.e.simp(r.e.view(st, t, s.v, path), s.st.pc)
	return s
}

func init() {
	register("C01", checkC01)
	register("C02", checkC02)
	register("C03", checkC03)
	register("C04", checkC04)
}

// methodsOf lists the exported zero-argument methods of an exported interface.
func (r *Run) methodsOf(t types.Type) []string {
	var out []string
	if t == nil {
		return nil
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if f.Exported() && f.Type().(*types.Signature).Params().Len() == 0 {
			out = append(out, f.Name())
		}
	}
	return out
}

func (r *Run) reportObligations(what string) {
	e := r.e
	for _, k := range e.oblOrd {
		o := e.oblig[k]
		r.count("runtime_failure_sites", 1)
		if o.bad == e.False {
			r.ok("%s at %s cannot happen", o.kind, r.p.where(o.pos))
			continue
		}
		if len(e.peel) > 0 && !e.definiteCase(o.bad) {
			r.unknown("%s at %s", o.kind, r.p.where(o.pos))
			continue
		}
		r.bad(fmt.Sprintf("%s|%s|%s|%s", what, o.kind, shortFn(o.fn), stableWhat(o.what)), r.p.where(o.pos)+" in "+o.fn,
			"%s: %s; reached when %s", o.kind, o.what, e.witness(o.bad))
	}
}

func shortFn(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func stableWhat(s string) string {
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

// C01: no input makes parsing or rendering the result panic.
func checkC01(r *Run) {
	if !r.parse() {
		return
	}
	r.rule("every nil dereference, out-of-range index, failed type assertion, nil call, integer division by zero and explicit panic reachable from ParseString, and from every niladic method of the statements it returns, is guarded for every parse tree of the grammar")
	e := r.e
	for _, k := range stmtKinds {
		t := r.p.typ("sql/query", k.typ)
		if t == nil {
			r.anchor("sql/query." + k.typ)
			continue
		}
		s := r.stmt(k.acc)
		if s == nil {
			continue // C04 reports a kind that is never produced
		}
		for _, m := range r.methodsOf(t) {
			st := s.st.clone()
			e.callMethod(st, t, s.v, m)
			r.count("statement_methods", 1)
		}
	}
	r.reportObligations("panic")
}

// mentionsSym reports whether a term depends on the named symbol.
func mentionsSym(t *T, name string) bool {
	seen := map[int]bool{}
	var rec func(x *T) bool
	rec = func(x *T) bool {
		if seen[x.id] {
			return false
		}
		seen[x.id] = true
		if x.op == OSym && x.name == name {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// reachVal collects everything reachable from v through the heap.
func (e *E) reachVal(st *State, v *T) []*T {
	seen := map[int]bool{}
	var out, work []*T
	push := func(t *T) {
		if t != nil && !seen[t.id] {
			seen[t.id] = true
			work = append(work, t)
		}
	}
	push(v)
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		out = append(out, t)
		for _, a := range t.args {
			push(a)
		}
		if c, ok := st.heap[t.id]; ok {
			push(c)
		}
	}
	return out
}

// C02: the result of a parse depends on its own query only.
func checkC02(r *Run) {
	if !r.parse() {
		return
	}
	r.rule("value flow of two consecutive ParseString calls on one parser: the second result and error mention no value derived from the first query, no parser state of the first call guards them, the first result is not overwritten by the second call, and no package-level variable is written")
	e := r.e
	_, parse, err := e.anchorParse()
	if err != nil {
		r.anchor(err.Error())
		return
	}
	m := r.pm
	// the first call wrote no package-level variable
	where := r.p.where(parse.Pos())
	for _, x := range e.events {
		if x.name == "store" && x.pc != e.False && len(x.args) > 0 {
			root, _ := ptrRoot(x.args[0])
			if root.op == OAlloc && strings.HasPrefix(root.name, "global:") {
				r.bad("global|"+root.name, r.p.where(x.pos), "parsing writes the package-level variable %s, which every other parser sees", strings.TrimPrefix(root.name, "global:"))
			}
		}
	}
	for id, c := range m.st.heap {
		t := e.byID(id)
		if t.op == OAlloc && strings.HasPrefix(t.name, "global:") {
			if b, ok := e.base.heap[id]; ok && b == c {
				r.ok("%s unchanged by a parse", t.name)
			} else if ok && b != c {
				r.bad("global|"+t.name, where, "parsing changes the package-level variable %s, which every other parser sees", strings.TrimPrefix(t.name, "global:"))
			}
		}
	}
	// second call on the same parser
	q2 := e.sym("query2", types.Typ[types.String])
	st := m.st.clone()
	res := e.callFunc(st, parse, []*T{m.parserV, q2}, nil, 0)
	stmts2, err2 := e.extract(res, 0), e.extract(res, 1)
	ok2 := e.eq(err2, e.Nil)
	chk := func(what string, t *T) {
		if mentionsSym(t, "query") {
			r.bad("history|"+what, where, "the %s of a parse depends on an earlier query given to the same parser: %s", what, clip(t))
		} else {
			r.ok("%s of the second parse is independent of the first query", what)
		}
	}
	chk("error condition", ok2)
	chk("error", err2)
	c2 := e.restrict(stmts2, ok2)
	dirty := false
	for _, t := range e.reachVal(st, c2) {
		if t.op == OSym && t.name == "query" {
			dirty = true
		}
	}
	r.count("reachable_result_terms", len(e.reachVal(st, c2)))
	r.expect(!dirty, "history|statements", where, "statements returned by a parse contain values of an earlier query given to the same parser")
	// the first result is not changed by the second call
	changed := ""
	for _, t := range e.reachVal(m.st, e.restrict(m.stmts, m.ok)) {
		if c, ok := m.st.heap[t.id]; ok && st.heap[t.id] != c && !strings.HasPrefix(t.name, "global:") {
			n := st.heap[t.id]
			if n != nil && mentionsSym(n, "query2") {
				changed = t.String()
			}
		}
	}
	r.expect(changed == "", "overwrite|statements", where, "statements returned by an earlier parse are overwritten by a later one (%s)", changed)
}

// C03: no syntax error and no empty query is reported as success.
func checkC03(r *Run) {
	if !r.parse() {
		return
	}
	r.rule("the success condition of ParseString is disjoint from 'the generated parser reported a syntax error' and from 'the query is empty'; the entry rule ends in EOF; every input character is a token on the channel the parser reads or is skipped white space or a comment")
	e := r.e
	m := r.pm
	_, parse, _ := e.anchorParse()
	where := r.p.where(parse.Pos())
	entries := 0
	for _, x := range e.events {
		if x.name == "antlr:entry" {
			entries++
			p := x.args[0]
			bad := e.atom(e.app("syntaxerror", p))
			both := e.and(m.ok, bad)
			r.expect(both == e.False, "syntaxerror|success", where, "a query with a syntax error can be reported as success: %s", e.witness(both))
		}
	}
	if entries == 0 {
		r.unknown("no generated entry rule is called by ParseString")
	}
	r.inputIsQuery("")
	empty := e.and(m.ok, e.eq(m.query, e.str("")))
	r.expect(empty == e.False, "empty|success", where, "the empty query is reported as success")
	bare := e.eq(m.query, e.str(";"))
	b := e.and(m.ok, bare)
	r.expect(b == e.False, "semicolon|success", where, "the query \";\" is reported as success")
	// an error always comes without statements
	some := e.and(e.not(m.ok), e.not(e.eq(m.stmts, e.Nil)))
	some = e.restrict(some, m.st.pc)
	if some == e.False {
		r.ok("no statements are returned next to an error")
	} else {
		r.unknown("statements next to an error: %s", e.witness(some))
	}
	g := r.p.gram
	r.expect(g.endsInEOF("parse"), "grammar|eof", "sql/parser/sqlite/antlr/SQLiteParser.g4", "the entry rule of the grammar no longer ends in EOF: trailing text would be ignored")
	r.expect(g.hasCatchAll(), "grammar|catchall", "sql/parser/sqlite/antlr/SQLiteLexer.g4", "the lexer grammar has no catch-all token: unknown characters would be dropped instead of being a syntax error")
	// the generated parser consumes EOF
	r.expect(r.p.generatedMatchesEOF(), "generated|eof", "sql/parser/sqlite/antlr/sqlite_parser.go", "the generated entry rule does not match EOF")
	for _, x := range e.events {
		if x.name == "antlr:tokens" && len(x.args) > 1 {
			if n, ok := x.args[1].isInt(); ok {
				r.expect(n == 0, "channel", r.p.where(x.pos), "the token stream reads channel %d instead of the default channel", n)
			}
		}
	}
}

// inputIsQuery: the generated lexer reads the query that was given, up to white
// space and semicolons around it.
func (r *Run) inputIsQuery(prefix string) {
	e := r.e
	m := r.pm
	_, parse, _ := e.anchorParse()
	where := r.p.where(parse.Pos())
	seen := map[int]bool{}
	var inputs []*T
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if x.op == OApp && x.name == "antlr:input" && len(x.args) == 1 {
			inputs = append(inputs, x.args[0])
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	for _, x := range e.events {
		if x.name == "antlr:entry" {
			rec(x.args[0])
		}
	}
	trim := func(s string) string { return strings.Trim(s, "; \t\r\n") }
	for _, in := range inputs {
		if in == m.query {
			r.ok("the lexer reads the query")
			continue
		}
		decided := true
		for _, q := range []string{"SELECT 1", "SELECT 1;\n", "SELECT 'a  b\tc\nd'", "SELECT 1\x00", "INSERT INTO t (a) VALUES ('It''s \"x\" \\ % $1 ?')", "-- c\nSELECT 1", "/* c */ SELECT 1", "SELECT 1 -- c", "SELECT 'a;b'; SELECT 'c'",
			"SELECT '\u00c9\u3042'", "SELECT `a b` FROM \"c d\"", "sElEcT a FROM Tbl WHERE b = 'X'", "SELECT ''", "#SELECT 1", "\\SELECT 1", "SELECT 1)", "\ufeffSELECT 1", "SELECT '\r\n'", "INSERT INTO t (a) VALUES ('--x')", "INSERT INTO t (a) VALUES ('/*x*/')", "SELECT 1 \x01",
			"INSERT INTO t (a) VALUES ('" + strings.Repeat("0123456789", 1000) + "')"} {
			if !strings.HasPrefix(q, prefix) {
				continue
			}
			mm := map[int]*T{m.query.id: e.str(q)}
			if e.sat(e.inst(m.ok, mm)) == e.False {
				continue
			}
			got, ok := e.inst(in, mm).isStr()
			if !ok {
				decided = false
				continue
			}
			if trim(got) != trim(q) {
				r.bad("input|changed", where, "for the query %s the lexer reads %s", clipS(strconv.Quote(q), 120), clipS(strconv.Quote(got), 120))
				return
			}
		}
		if decided {
			r.ok("the lexer reads the query")
		} else {
			r.unknown("the text the lexer reads: %s", clip(in))
		}
	}
}

// C04: statement list structure.
func checkC04(r *Run) {
	if !r.parse() {
		return
	}
	r.statementHistories()
	r.rule("under success, the statement list is the concatenation, in grammar order, of exactly one statement per sql_stmt, whose dynamic type answers StatementType with the constant of the statement kind that was written and implements that kind's interface")
	e := r.e
	_, parse, _ := e.anchorParse()
	where := r.p.where(parse.Pos())
	els := e.flatten(e.simp(r.pm.list, r.pm.ok))
	if len(els) == 0 {
		r.bad("list|empty", where, "no statement is ever returned")
		return
	}
	// order: outer domain is the statement-list list of the parse tree, inner its statements
	tree := ""
	for _, x := range els {
		ok := len(x.doms) == 2 && x.doms[0].name == "g:AllSql_stmt_list" && x.doms[1] == e.app("g:AllSql_stmt", e.elemVar(x.doms[0]))
		switch {
		case ok:
			r.ok("statements follow the order of the parse tree")
		case len(x.doms) > 0 && strings.Contains(fmt.Sprint(x.doms[0]), "reverse") || len(x.doms) > 1 && x.doms[1].name == "reverse":
			r.bad("list|order", where, "statements are returned in reverse order")
		case len(x.doms) == 2 && x.doms[0].op == OApp && x.doms[0].name != "g:AllSql_stmt_list" && r.p.isGrammarTerm(x.doms[0]):
			r.bad("list|domain", where, "statements are read from %s", clip(x.doms[0]))
		default:
			r.unknown("shape of the statement list: %d domains", len(x.doms))
			tree = "?"
		}
	}
	if tree != "" {
		return
	}
	if len(els) > 1 {
		// several parts over the same domain: each statement may be added more than once or reordered
		over := e.False
		seen := e.False
		for _, x := range els {
			over = e.or(over, e.and(seen, x.g))
			seen = e.or(seen, x.g)
		}
		if over != e.False {
			r.bad("list|duplicate", where, "one statement of the query yields several entries of the result: %s", e.witness(over))
			return
		}
	}
	for _, k := range stmtKinds {
		kt := r.p.typ("sql/query", k.typ)
		if kt == nil {
			r.anchor("sql/query." + k.typ)
			continue
		}
		s := r.stmt(k.acc)
		if s == nil {
			r.bad("missing|"+k.acc, where, "no entry of the result is produced for %s", k.acc)
			continue
		}
		// total: every statement of this kind in a successful parse has an entry
		present := e.and(r.pm.ok, e.not(e.eq(s.S, e.Nil)))
		x := els[0]
		for _, d := range x.doms {
			present = e.and(present, e.instFacts(present, d))
		}
		present = e.and(present, r.pm.st.pc)
		covered := e.False
		for _, x := range els {
			covered = e.or(covered, x.g)
		}
		miss := e.and(present, e.not(covered))
		r.expect(miss == e.False, "dropped|"+k.acc, where, "a %s can be left out of the result of a successful parse: %s", k.acc, e.witness(miss))
		c := r.p.constant("sql/query", k.konst)
		if c == nil {
			r.anchor("sql/query." + k.konst)
			continue
		}
		want := e.constant(c, nil)
		got := e.simp(e.view(s.st.clone(), nil, s.v, "StatementType()"), s.st.pc)
		switch {
		case got == want:
			r.ok("%s yields StatementType %s", k.acc, k.konst)
		default:
			var wrong []string
			for _, l := range e.leaves(got) {
				if l.v != want {
					if l.v.op == OConst || l.v.op == OSym && strings.HasPrefix(l.v.name, "nil.") {
						wrong = append(wrong, fmt.Sprintf("%s when %s", clip(l.v), e.witness(l.g)))
					}
				}
			}
			if len(wrong) > 0 {
				r.bad("type|"+k.acc, where, "%s is returned as a statement of another type: StatementType() is %s, want %s", k.acc, strings.Join(wrong, "; "), want)
			} else {
				r.unknown("StatementType of %s: %s", k.acc, clip(got))
			}
		}
		it, _ := kt.Underlying().(*types.Interface)
		for _, l := range e.leaves(s.v) {
			if l.v.op == OIface && it != nil {
				r.expect(types.Implements(l.v.typ, it), "iface|"+k.acc, where, "%s is returned as %s, which is not a %s", k.acc, l.v.typ, k.typ)
			}
		}
	}
}

// statementHistories instantiates the query with two times two statements of
// one kind: each has its own entry, in order, whatever the others are.
func (r *Run) statementHistories() {
	r.rule("for queries of four statements of one kind, the result lists the names they were written with, one by one")
	for _, k := range []struct{ acc, path, sub string }{
		{"Use_stmt", "[].DatabaseName()", "Database_name"},
		{"Drop_database_stmt", "[].DatabaseName()", "Database_name"},
		{"Create_database_stmt", "[].DatabaseName()", "Database_name"},
		{"Drop_index_stmt", "[].Index().Name()", "Index_name"},
	} {
		q := newRun(r.p, r.prop)
		q.e.only = k.acc
		q.e.peel["parse.AllSql_stmt_list"] = true
		q.e.peel["sql_stmt_list.AllSql_stmt"] = true
		e := q.e
		if !q.parse() {
			r.unknown("histories of %s", k.acc)
			continue
		}
		var lists *T
		for id := 1; id <= e.n; id++ {
			if t := e.byID(id); t.op == OApp && t.name == "g:AllSql_stmt_list" {
				lists = t
			}
		}
		if lists == nil {
			r.unknown("histories of %s", k.acc)
			continue
		}
		var want []*T
		for i := 0; i < peelN; i++ {
			o := e.seqIndex(lists, e.intc(i))
			for j := 0; j < peelN; j++ {
				s := e.seqIndex(e.acc(o, "AllSql_stmt"), e.intc(j))
				want = append(want, e.elem(e.True, e.text(e.path(e.acc(s, k.acc), k.sub))))
			}
		}
		st := q.pm.st.clone()
		st.pc = e.sat(e.and(st.pc, q.pm.ok))
		t := types.NewSlice(r.p.typ("sql/query", kindOf(k.acc).typ))
		got := e.simp(e.view(st, t, e.newSlice(st, q.pm.list), k.path), st.pc)
		q.same("history|"+k.acc, "the statement list", got, e.seq(want...), st.pc, nil)
		r.merge(q)
	}
	r.p.eng = r.e
}

// merge takes over the obligations of a helper run.
func (r *Run) merge(q *Run) {
	r.obl += q.obl
	r.decided += q.decided
	r.undecided = append(r.undecided, q.undecided...)
	for _, f := range q.findings {
		r.fail(f.Key, f.Where, "%s", f.Msg)
	}
	for _, s := range q.samples {
		if len(r.samples) < 40 {
			r.samples = append(r.samples, s)
		}
	}
	for k, n := range q.analysed {
		r.count(k, n)
	}
}

func (p *Program) constant(pkg, name string) constant.Value {
	sp := p.ssaPkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
		return c.Val()
	}
	return nil
}
