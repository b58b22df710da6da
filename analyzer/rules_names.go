package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const (
	strPkg = "sql/util/strings"
	qryPkg = "sql/query"
	errPkg = "sql/errors"
)

// constsOf are the declared constants of a named type, in value order.
func (r *Run) constsOf(pkg, typ string) []string {
	sp := r.p.ssaPkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	var ns []string
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !c.Exported() {
			continue
		}
		if nt, ok := c.Type().(*types.Named); ok && nt.Obj().Name() == typ && nt.Obj().Pkg() == sp.Pkg {
			ns = append(ns, n)
		}
	}
	sort.Slice(ns, func(i, j int) bool {
		a, b := sc.Lookup(ns[i]).(*types.Const), sc.Lookup(ns[j]).(*types.Const)
		if a.Val().ExactString() != b.Val().ExactString() {
			x, okx := intVal(a)
			y, oky := intVal(b)
			if okx && oky {
				return x < y
			}
			return a.Val().ExactString() < b.Val().ExactString()
		}
		return ns[i] < ns[j]
	})
	return ns
}

func intVal(c *types.Const) (int64, bool) {
	var n int64
	_, err := fmt.Sscan(c.Val().ExactString(), &n)
	return n, err == nil
}

// strOf is the constant text of a value, reported as undecided otherwise.
func (x *X) strOf(key string, v *T) (string, bool) {
	s, ok := v.isStr()
	if !ok {
		x.r.unknown("%s|%s: no constant text: %s", x.name, key, clip(v))
	}
	return s, ok
}

// awkward are texts that stress quoting.
var awkward = []string{"", "a", "'", "''", "'''", "\"", "\"\"", "a'b", "'a", "a'", "'a'", "''a''", "\"a\"", "\"a'b\"", "'a\"b'", "a''b", "it''s", "`a`", "?", "$1", "%v", "%s%d", "\\", "\\'", "a\nb", " ", " a ", "--", ";", "é", "日本", "a\x00b", "()", "*", "NULL", "'\"", "\"'", "'?'", "1", "a, b"}

func init() {
	register("C11", func(r *Run) {
		e := r.e
		r.rule("evaluate EscapeString and UnEscapeString on an arbitrary string (with the algebra of ReplaceAll, concatenation and slicing) and on quoting corner cases: escaping yields the quoted text with every quote doubled, and unescaping gives the text back")
		sp := func(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }
		r.scenario("escape an arbitrary string", func(x *X) {
			s := x.strSym("s")
			esc := x.fn(strPkg, "EscapeString", s)
			where := x.pos(strPkg, "EscapeString")
			x.same("escape", where, esc, e.cat(e.str("'"), e.replaceAll(s, e.str("'"), e.str("''")), e.str("'")), "an escaped string is the quoted string with every quote doubled")
			un := x.fn(strPkg, "UnEscapeString", esc)
			x.same("inverse", x.pos(strPkg, "UnEscapeString"), un, s, "unescaping an escaped string gives the string back")
		})
		r.scenario("unescape a double-quoted string", func(x *X) {
			s := x.strSym("s")
			q := e.cat(e.str("\""), e.replaceAll(s, e.str("\""), e.str("\"\"")), e.str("\""))
			x.same("double", x.pos(strPkg, "UnEscapeString"), x.fn(strPkg, "UnEscapeString", q), s, "unescaping a double-quoted string gives the string back")
		})
		r.scenario("comparison", func(x *X) {
			for _, p := range [][2]string{{"K", "k"}, {"\u212a", "k"}, {"\u017f", "S"}, {"ß", "SS"}, {"ß", "\u1e9e"}, {"Å", "å"}, {"a", "a "}, {"a", "a\x00"}, {"σ", "ς"}, {"Σ", "ς"}, {"i", "İ"}, {"", " "}, {"abc", "ABC"}, {"\xff", "\xfe"}} {
				for _, q := range [][2]string{p, {p[1], p[0]}} {
					x.same(fmt.Sprintf("fold %q", q), x.pos(strPkg, "EqualFold"), x.fn(strPkg, "EqualFold", e.str(q[0]), e.str(q[1])), e.boolc(strings.EqualFold(q[0], q[1])), "EqualFold(%q, %q)", q[0], q[1])
					x.same(fmt.Sprintf("equal %q", q), x.pos(strPkg, "Equal"), x.fn(strPkg, "Equal", e.str(q[0]), e.str(q[1])), e.False, "Equal(%q, %q)", q[0], q[1])
				}
			}
		})
		for _, s := range append([]string{"\x00a\x00", "\xff'\xfe", strings.Repeat("'", 40), strings.Repeat("\"", 40), strings.Repeat("it's ", 15000), "\ufeffa", "a\r\n", "\u2019"}, awkward...) {
			s := s
			r.scenario(fmt.Sprintf("text %.50q", s), func(x *X) {
				esc := x.fn(strPkg, "EscapeString", e.str(s))
				x.same("escape", x.pos(strPkg, "EscapeString"), esc, e.str(sp(s)), "the escaped string")
				x.same("inverse", x.pos(strPkg, "UnEscapeString"), x.fn(strPkg, "UnEscapeString", e.str(sp(s))), e.str(s), "the unescaped form of %s", sp(s))
				dq := "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
				x.same("inverse double", x.pos(strPkg, "UnEscapeString"), x.fn(strPkg, "UnEscapeString", e.str(dq)), e.str(s), "the unescaped form of %s", dq)
				quoted := len(s) >= 2 && (s[0] == '\'' || s[0] == '"') && s[len(s)-1] == s[0]
				if !quoted {
					x.same("unquoted", x.pos(strPkg, "UnEscapeString"), x.fn(strPkg, "UnEscapeString", e.str(s)), e.str(s), "a string without enclosing quotes is returned unchanged")
				}
				lit := x.fn(qryPkg, "NewLiteralWith", e.iface(types.Typ[types.String], e.str(s)), x.slice(x.fn(qryPkg, "WithLiteralType", x.pkgConst(qryPkg, "StringLiteral"))))
				lt := types.NewPointer(x.typ(qryPkg, "Literal"))
				x.same("literal", x.pos(qryPkg, "NewLiteralWith"), x.m(lt, lit, "String"), e.str(sp(s)), "the rendering of a string literal")
				for _, c := range awkward {
					eq := x.fn(strPkg, "Equal", e.str(s), e.str(c))
					x.same("equal "+c, x.pos(strPkg, "Equal"), eq, e.boolc(s == c), "Equal(%q, %q)", s, c)
				}
				x.same("fold", x.pos(strPkg, "EqualFold"), x.fn(strPkg, "EqualFold", e.str(strings.ToUpper(s)), e.str(strings.ToLower(s))), e.True, "EqualFold ignores case")
				x.same("fold other", x.pos(strPkg, "EqualFold"), x.fn(strPkg, "EqualFold", e.str(s+"a"), e.str(s+"b")), e.False, "EqualFold tells different strings apart")
			})
		}
		for _, n := range []string{"a", "id", "UserName", "t1", "a_b", "_x", "order", "*", "a b", " a ", "a.b", "日本", "", "\"a\"", "a'b", "a(b)c", "%v", "a\n"} {
			n := n
			r.scenario("name "+n, func(x *X) {
				esc := x.fn(strPkg, "EscapeNameString", e.str(n))
				s, ok := x.strOf("escaped name", esc)
				if !ok {
					return
				}
				r.expect(s == "`"+n+"`", x.name+"|escape", x.pos(strPkg, "EscapeNameString"), "the escaped form of the name %s is %s", n, s)
				for _, f := range []string{n, "`" + n + "`", "'" + n + "'"} {
					x.same("unescape "+f, x.pos(strPkg, "UnEscapeNameString"), x.fn(strPkg, "UnEscapeNameString", e.str(f)), e.str(n), "the name written %s", f)
				}
			})
		}
		for n := 0; n <= 3; n++ {
			n := n
			r.scenario(fmt.Sprintf("join %d", n), func(x *X) {
				var vs, sp, cm []*T
				for i := 0; i < n; i++ {
					v := x.strSym(fmt.Sprintf("s%d", i))
					if i > 0 {
						sp, cm = append(sp, e.str(" ")), append(cm, e.str(", "))
					}
					vs, sp, cm = append(vs, v), append(sp, v), append(cm, v)
				}
				x.same("space", x.pos(strPkg, "JoinWithSpace"), x.fn(strPkg, "JoinWithSpace", x.slice(vs...)), e.cat(sp...), "joined with a space")
				x.same("comma", x.pos(strPkg, "JoinWithComma"), x.fn(strPkg, "JoinWithComma", x.slice(vs...)), e.cat(cm...), "joined with a comma")
			})
		}
	})

	register("C12", func(r *Run) {
		e := r.e
		r.rule("evaluate String of every declared constant of the enumerations, and the parsing functions on every name in several spellings: names are total, distinct, equal to the SQL name and map back to the constant; unknown names are refused")
		// enumerations with a name per constant
		enum := func(pkg, typ string, names []string, unnamed map[string]string) map[string]string {
			got := map[string]string{}
			by := map[string]string{}
			r.expect(len(names) > 0, typ+"|consts", pkg, "%s has no constants", typ)
			for _, n := range names {
				n := n
				r.scenario(typ+" "+n, func(x *X) {
					t := x.typ(pkg, typ)
					v := x.m(t, x.pkgConst(pkg, n), "String")
					s, ok := x.strOf("name", v)
					if !ok {
						return
					}
					r.count("enumeration constants", 1)
					where := pkg + "." + n
					if want, ok := unnamed[n]; ok {
						r.expect(s == want, x.name+"|name", where, "the name of %s is %q, expected %q", n, s, want)
						return
					}
					r.expect(s != "", x.name+"|named", where, "%s has no name", n)
					if o, dup := by[s]; dup && s != "" {
						r.bad(x.name+"|distinct", where, "%s and %s have the same name %q", n, o, s)
					} else {
						r.ok("%s distinct", n)
					}
					by[s] = n
					got[n] = s
				})
			}
			return got
		}
		spelled := func(typ string, got, want map[string]string) {
			for n, w := range want {
				if s, ok := got[n]; ok {
					r.expect(s == w, typ+" "+n+"|spelling", qryPkg+"."+n, "the name of %s is %q, expected %q", n, s, w)
				} else {
					r.bad(typ+" "+n+"|spelling", qryPkg+"."+n, "%s has no name, expected %q", n, w)
				}
			}
		}
		// statement types are untyped constants
		var stmts []string
		stmtWant := map[string]string{"CreateDatabaseStatement": "CREATE DATABASE", "CreateTableStatement": "CREATE TABLE", "CreateIndexStatement": "CREATE INDEX", "InsertStatement": "INSERT", "SelectStatement": "SELECT", "UpdateStatement": "UPDATE", "DeleteStatement": "DELETE", "DropDatabaseStatement": "DROP DATABASE", "DropTableStatement": "DROP TABLE", "DropIndexStatement": "DROP INDEX", "AlterDatabaseStatement": "ALTER DATABASE", "AlterTableStatement": "ALTER TABLE", "AlterIndexStatement": "ALTER INDEX", "CopyStatement": "COPY", "CommitStatement": "COMMIT", "VacuumStatement": "VACUUM", "TruncateStatement": "TRUNCATE", "BeginStatement": "BEGIN", "RollbackStatement": "ROLLBACK", "UseStatement": "USE"}
		for n := range stmtWant {
			stmts = append(stmts, n)
		}
		sort.Strings(stmts)
		spelled("StatementType", enum(qryPkg, "StatementType", stmts, nil), stmtWant)
		spelled("CmpExprOperator", enum(qryPkg, "CmpExprOperator", r.constsOf(qryPkg, "CmpExprOperator"), nil),
			map[string]string{"EQ": "=", "NEQ": "!=", "LT": "<", "GT": ">", "LE": "<=", "GE": ">=", "IN": "IN", "NIN": "NOT IN"})
		for _, n := range r.constsOf(qryPkg, "CmpExprOperator") {
			n := n
			r.scenario("operator "+n, func(x *X) {
				x.same("alias", "sql."+n, x.pkgConst("sql", n), x.pkgConst(qryPkg, n), "sql.%s is query.%s", n, n)
			})
		}
		for n, s := range map[string]string{"NewEQWith": "EQ", "NewNEQWith": "NEQ", "NewLTWith": "LT", "NewGTWith": "GT", "NewLEWith": "LE", "NewGEWith": "GE"} {
			n, s := n, s
			r.scenario("operator constructor "+n, func(x *X) {
				col := x.fn(qryPkg, "NewColumnWithName", e.str("a"))
				lit := x.fn(qryPkg, "NewLiteralWith", e.iface(types.Typ[types.Int], e.intc(1)), e.Nil)
				c := x.fn(qryPkg, n, col, lit)
				ct := types.NewPointer(x.typ(qryPkg, "CmpExpr"))
				x.same("operator", x.pos(qryPkg, n), x.m(ct, c, "Operator"), x.pkgConst(qryPkg, s), "the operator of %s", n)
				x.same("left", x.pos(qryPkg, n), x.m(ct, c, "Left"), col, "the left side of %s", n)
				x.same("right", x.pos(qryPkg, n), x.m(ct, c, "Right"), lit, "the right side of %s", n)
			})
		}
		spelled("CopyFormat", enum(qryPkg, "CopyFormat", r.constsOf(qryPkg, "CopyFormat"), nil),
			map[string]string{"CopyFormatText": "TEXT", "CopyFormatCSV": "CSV", "CopyFormatBinary": "BINARY"})
		spelled("IndexType", enum(qryPkg, "IndexType", r.constsOf(qryPkg, "IndexType"), nil),
			map[string]string{"PrimaryIndex": "PRIMARY KEY", "SecondaryIndex": "INDEX"})
		// order types
		ord := enum(qryPkg, "OrderType", r.constsOf(qryPkg, "OrderType"), nil)
		spelled("OrderType", ord, map[string]string{"OrderAsc": "ASC", "OrderDesc": "DESC"})
		for _, n := range r.constsOf(qryPkg, "OrderType") {
			n := n
			for _, s := range []string{ord[n], strings.ToLower(ord[n]), mixCase(ord[n])} {
				s := s
				r.scenario("order "+s, func(x *X) {
					v := x.fn(qryPkg, "NewOrderTypeWith", e.str(s))
					x.same("inverse", x.pos(qryPkg, "NewOrderTypeWith"), v, x.pkgConst(qryPkg, n), "the order type named %s", s)
					t := x.typ(qryPkg, "OrderType")
					for m, c := range map[string]string{"IsNone": "OrderNone", "IsAsc": "OrderAsc", "IsDesc": "OrderDesc"} {
						x.same(m, qryPkg+".OrderType."+m, x.m(t, x.pkgConst(qryPkg, n), m), e.boolc(n == c), "%s of %s", m, n)
					}
				})
			}
		}
		for _, s := range []string{"", "A", "ASCX", "XASC", "DES", "DESCENDING", "ASC ", "NULLS"} {
			s := s
			r.scenario(fmt.Sprintf("order %q", s), func(x *X) {
				x.same("unknown", x.pos(qryPkg, "NewOrderTypeWith"), x.fn(qryPkg, "NewOrderTypeWith", e.str(s)), x.pkgConst(qryPkg, "OrderNone"), "a word that names no order")
			})
		}
		// data types
		dts := r.constsOf(qryPkg, "DataType")
		dn := enum(qryPkg, "DataType", dts, map[string]string{"UnknownData": ""})
		spelled("DataType", dn, dataTypeNames)
		known := map[string]string{}
		for n, s := range dn {
			for _, f := range []string{s, strings.ReplaceAll(s, " ", "")} {
				known[strings.ToUpper(f)] = n
			}
		}
		var ks []string
		for k := range known {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		miss := map[string]bool{"": true, "FOO": true, "INT4": true, "DOUBLE  PRECISION": true, "UNKNOWN": true, " ": true, "INT(10)": true, "?": true, "BOOL": true, "STRING": true, "NUMBER": true, "INT2": true, "INT8": true, "JSON": true, "TIMESTAMPTZ": true, "NVARCHAR": true, "MONEY": true, "UUID": true}
		for _, k := range ks {
			n := known[k]
			for _, f := range []string{k, strings.ToLower(k), mixCase(k)} {
				f := f
				r.scenario("data type "+f, func(x *X) {
					v := x.fn(qryPkg, "NewDataTypeFromString", e.str(f))
					where := x.pos(qryPkg, "NewDataTypeFromString")
					x.same("type", where, x.at(v, 0), x.pkgConst(qryPkg, n), "the data type named %s", f)
					x.holds("error", where, x.isNil(x.at(v, 1)), "the data type name %s is refused", f)
					for _, in := range []*T{e.iface(types.Typ[types.String], e.str(f)), e.iface(types.NewSlice(types.Typ[types.Byte]), x.bytesOf(f))} {
						v = x.fn(qryPkg, "NewDataTypeFrom", in)
						where = x.pos(qryPkg, "NewDataTypeFrom")
						x.same("any type "+tkindOf(in), where, x.at(v, 0), x.pkgConst(qryPkg, n), "the data type named %s", f)
						x.holds("any error "+tkindOf(in), where, x.isNil(x.at(v, 1)), "the data type name %s is refused", f)
					}
				})
			}
			for _, m := range []string{k + "X", "X" + k, k[:len(k)-1], k[1:], k + " ", k + "1", k + k, " " + k, k + "\n", k + "()", k + "(1)", "'" + k + "'", k + " UNSIGNED", k + ";", "_" + k} {
				if known[m] == "" {
					miss[m] = true
				}
			}
			k := k
			r.scenario("data types that start or end like "+k, func(x *X) {
				where := x.pos(qryPkg, "NewDataTypeFromString")
				for c := 'A'; c <= 'Z'; c++ {
					for _, m := range []string{k + string(c), string(c) + k, strings.ToLower(k + string(c))} {
						if known[strings.ToUpper(m)] == "" {
							v := x.fn(qryPkg, "NewDataTypeFromString", e.str(m))
							x.holds(m, where, x.notNil(x.at(v, 1)), "%q names no data type but is accepted", m)
						}
					}
				}
			})
		}
		var ms []string
		for m := range miss {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			m := m
			r.scenario(fmt.Sprintf("no data type %q", m), func(x *X) {
				v := x.fn(qryPkg, "NewDataTypeFromString", e.str(m))
				where := x.pos(qryPkg, "NewDataTypeFromString")
				x.holds("error", where, x.notNil(x.at(v, 1)), "%q names no data type but is accepted", m)
				x.same("type", where, x.at(v, 0), x.pkgConst(qryPkg, "UnknownData"), "the data type of a refused name")
			})
		}
		for _, c := range []struct {
			t    types.Type
			want string
		}{{types.Typ[types.Int8], "TinyIntType"}, {types.Typ[types.Uint8], "TinyIntType"}, {types.Typ[types.Int16], "SmallIntType"}, {types.Typ[types.Uint16], "SmallIntType"}, {types.Typ[types.Int32], "IntType"}, {types.Typ[types.Uint32], "IntType"}, {types.Typ[types.Int64], "BigIntType"}, {types.Typ[types.Uint64], "BigIntType"}, {types.Typ[types.Int], "IntType"}, {types.Typ[types.Uint], "IntType"}, {types.Typ[types.Float32], "FloatType"}, {types.Typ[types.Float64], "DoubleType"}, {types.Typ[types.Bool], "BooleanType"}, {types.Typ[types.String], "VarCharType"}, {types.NewSlice(types.Typ[types.Byte]), "BlobType"}, {types.Typ[types.Complex128], ""}, {types.NewSlice(types.Typ[types.String]), ""}} {
			c := c
			r.scenario("data type of a value of type "+c.t.String(), func(x *X) {
				v := x.fn(qryPkg, "NewDataTypeForValue", e.iface(c.t, e.sym("v", c.t)))
				where := x.pos(qryPkg, "NewDataTypeForValue")
				if c.want == "" {
					x.holds("error", where, x.notNil(x.at(v, 1)), "a value of type %s has no data type but is accepted", c.t)
					return
				}
				x.holds("error", where, x.isNil(x.at(v, 1)), "a value of type %s is refused", c.t)
				x.same("type", where, x.at(v, 0), x.pkgConst(qryPkg, c.want), "the data type of a value of type %s", c.t)
			})
		}
		// constraints are bit sets
		bits := []struct{ n, name, is string }{{"PrimaryKeyConstraint", "PRIMARY KEY", "IsPrimaryKey"}, {"NotNullConstraint", "NOT NULL", "IsNotNull"}, {"UniqueConstraint", "UNIQUE", "IsUnique"}}
		for m := 0; m < 1<<len(bits); m++ {
			m := m
			r.scenario(fmt.Sprintf("constraints %03b", m), func(x *X) {
				v := int64(0)
				for i, b := range bits {
					if n, ok := x.pkgConst(qryPkg, b.n).isInt(); ok && m&(1<<i) != 0 {
						v |= n
					}
				}
				t := x.typ(qryPkg, "Constraint")
				for i, b := range bits {
					x.same(b.is, qryPkg+".Constraint."+b.is, x.m(t, e.intc(int(v)), b.is), e.boolc(m&(1<<i) != 0), "%s of the constraint set", b.is)
				}
				s, ok := x.strOf("name", x.m(t, e.intc(int(v)), "String"))
				if !ok {
					return
				}
				for i, b := range bits {
					r.expect(strings.Contains(s, b.name) == (m&(1<<i) != 0), x.name+"|String "+b.is, qryPkg+".Constraint.String", "the constraint set is rendered %q: %s", s, b.name)
				}
				r.expect(m != 0 || s == "", x.name+"|String none", qryPkg+".Constraint.String", "no constraint is rendered %q", s)
			})
		}
	})

	register("C13", func(r *Run) {
		r.rule("every declared SQLSTATE code and class has the value of PostgreSQL appendix A, codes are five characters, distinct and in a declared class, and String (evaluated on every constant) names each distinctly")
		clsOf := map[string]bool{}
		for _, n := range r.constsOf(errPkg, "Class") {
			n := n
			r.scenario("class "+n, func(x *X) {
				v, ok := x.strOf("value", x.pkgConst(errPkg, n))
				if !ok {
					return
				}
				clsOf[v] = true
				r.expect("Class"+v == n && len(v) == 2, x.name+"|value", errPkg+"."+n, "the class %s has the value %q", n, v)
				if s, ok := x.strOf("name", x.m(x.typ(errPkg, "Class"), x.pkgConst(errPkg, n), "String")); ok {
					if w, ok := sqlClasses[strings.TrimPrefix(n, "Class")]; ok {
						r.expect(s == w, x.name+"|title", errPkg+"."+n, "the class %s is titled %q, expected %q", n, s, w)
					}
					r.expect(s != "" && s != "Unknown Class", x.name+"|named", errPkg+"."+n, "the class %s has no title", n)
				}
			})
		}
		for c := range sqlClasses {
			r.expect(clsOf[c], "class "+c+"|declared", errPkg+".Class", "the SQLSTATE class %s is not declared", c)
		}
		byVal, byName := map[string]string{}, map[string]string{}
		decl := map[string]bool{}
		for _, n := range r.constsOf(errPkg, "Code") {
			n := n
			decl[n] = true
			r.scenario("code "+n, func(x *X) {
				v, ok := x.strOf("value", x.pkgConst(errPkg, n))
				if !ok {
					return
				}
				r.count("codes", 1)
				where := errPkg + "." + n
				r.expect(len(v) == 5, x.name+"|length", where, "the code %s = %q is not a five-character SQLSTATE", n, v)
				r.expect(len(v) >= 2 && clsOf[v[:2]], x.name+"|class", where, "the code %s = %q is in no declared class", n, v)
				if w, ok := sqlStates[n]; ok {
					r.expect(v == w, x.name+"|value", where, "the code %s is %q, expected %q", n, v, w)
				}
				if o := byVal[v]; o != "" {
					r.bad(x.name+"|distinct", where, "%s and %s are both %q", n, o, v)
				}
				byVal[v] = n
				if s, ok := x.strOf("name", x.m(x.typ(errPkg, "Code"), x.pkgConst(errPkg, n), "String")); ok {
					r.expect(letters(s) == letters(n), x.name+"|title", where, "the code %s is titled %q", n, s)
					if o := byName[s]; o != "" {
						r.bad(x.name+"|title distinct", where, "%s and %s are both titled %q", n, o, s)
					}
					byName[s] = n
				}
			})
		}
		for n := range sqlStates {
			r.expect(decl[n], "code "+n+"|declared", errPkg+"."+n, "the code %s is not declared", n)
		}
		for _, s := range []string{"", "0000", "000000", "99999", "4260", "426011", "ZZZZZ", "00", "xx000"} {
			s := s
			r.scenario(fmt.Sprintf("unknown code %q", s), func(x *X) {
				if v, ok := x.strOf("name", x.m(x.typ(errPkg, "Code"), r.e.str(s), "String")); ok {
					r.expect(byName[v] == "", x.name+"|named", errPkg+".Code.String", "the unknown code %q is titled %q", s, v)
				}
			})
		}
	})

	register("C14", func(r *Run) {
		e := r.e
		r.rule("evaluate every public error constructor on an arbitrary object: the result is an error, errors.Is finds exactly the sentinel the constructor is named after, and the message names the object")
		str := func(s string) func(x *X) *T { return func(x *X) *T { return e.str(s) } }
		any := func(s string) func(x *X) *T {
			return func(x *X) *T { return e.iface(types.Typ[types.String], e.str(s)) }
		}
		stmt := func(x *X) *T { return e.iface(types.Typ[types.String], e.str("STMT")) }
		type ctor struct {
			pkg, fn string
			args    []func(x *X) *T
			is      string
			tokens  []string
		}
		const ob = "obj-7"
		cs := []ctor{
			{errPkg, "NewErrNotImplemented", []func(x *X) *T{str(ob)}, "ErrNotImplemented", []string{ob}},
			{errPkg, "NewErrNotExist", []func(x *X) *T{str(ob)}, "ErrNotExist", []string{ob}},
			{errPkg, "NewErrExist", []func(x *X) *T{str(ob)}, "ErrExist", []string{ob}},
			{errPkg, "NewErrNotSupported", []func(x *X) *T{str(ob)}, "ErrNotSupported", []string{ob}},
			{errPkg, "NewErrDatabaseNotExist", []func(x *X) *T{str(ob)}, "ErrNotExist", []string{ob, "database"}},
			{errPkg, "NewErrTableNotExist", []func(x *X) *T{str(ob)}, "ErrNotExist", []string{ob, "table"}},
			{errPkg, "NewErrDatabaseExist", []func(x *X) *T{str(ob)}, "ErrExist", []string{ob, "database"}},
			{errPkg, "NewErrTableExist", []func(x *X) *T{str(ob)}, "ErrExist", []string{ob, "table"}},
			{errPkg, "NewErrColumnNotExist", []func(x *X) *T{any(ob)}, "ErrNotExist", []string{ob, "column"}},
			{errPkg, "NewErrColumnValueNotExist", []func(x *X) *T{any(ob)}, "ErrNotExist", []string{ob, "column"}},
			{errPkg, "NewErrGroupByColumnValueNotFound", []func(x *X) *T{any(ob)}, "ErrNotFound", []string{ob, "column"}},
			{errPkg, "NewErrColumnsNotEqual", []func(x *X) *T{func(x *X) *T { return e.intc(4711) }, func(x *X) *T { return e.intc(815) }}, "ErrNotEqual", []string{"4711", "815"}},
			{errPkg, "NewErrPreparedStatementNotExist", []func(x *X) *T{str(ob)}, "ErrNotExist", []string{ob}},
			{errPkg, "NewErrPreparedPortalNotExist", []func(x *X) *T{str(ob)}, "ErrNotExist", []string{ob}},
			{errPkg, "NewErrMultiplePreparedStatementNotSupported", []func(x *X) *T{str(ob)}, "ErrNotSupported", []string{ob}},
			{errPkg, "NewErrMultipleTableNotSupported", []func(x *X) *T{str(ob)}, "ErrNotSupported", []string{ob}},
			{errPkg, "NewErrNoTable", []func(x *X) *T{str(ob)}, "", []string{ob}},
			{qryPkg, "NewErrStatementInvalid", []func(x *X) *T{stmt}, "ErrInvalid", nil},
			{qryPkg, "NewErrStatementNotSupported", []func(x *X) *T{stmt}, "ErrNotSupported", nil},
			{fnPkg, "NewErrNotSupportedFunction", []func(x *X) *T{str(ob)}, "ErrNotSupported", []string{ob}},
		}
		for i, n := 0, len(cs); i < n; i++ {
			if len(cs[i].tokens) == 0 || cs[i].tokens[0] != ob {
				continue
			}
			for _, o := range []string{"", "x", "no%vfmt%d", "a b\nc", "(x)", strings.Repeat("long-", 60), "%!s(MISSING)"} {
				c := cs[i]
				c.args, c.tokens = []func(x *X) *T{str(o)}, append([]string{o}, c.tokens[1:]...)
				if t := r.e.prog.fn(c.pkg, c.fn); t != nil && types.IsInterface(t.Params[0].Type()) {
					c.args[0] = any(o)
				}
				cs = append(cs, c)
			}
			if t := r.e.prog.fn(cs[i].pkg, cs[i].fn); t != nil && types.IsInterface(t.Params[0].Type()) {
				c := cs[i]
				c.args, c.tokens = []func(x *X) *T{func(x *X) *T { return e.Nil }}, c.tokens[1:]
				cs = append(cs, c)
				c.args, c.tokens = []func(x *X) *T{func(x *X) *T { return e.iface(types.Typ[types.Int], e.intc(0)) }}, append([]string{"0"}, c.tokens...)
				cs = append(cs, c)
			}
		}
		for i, c := range cs {
			c := c
			r.scenario(fmt.Sprint(c.fn, " ", i), func(x *X) {
				var as []*T
				for _, a := range c.args {
					as = append(as, a(x))
				}
				err := x.fn(c.pkg, c.fn, as...)
				where := x.pos(c.pkg, c.fn)
				x.holds("non-nil", where, x.notNil(err), "the error is not nil")
				sc := r.p.ssaPkgs[modPath+"/"+c.pkg].Pkg.Scope()
				for _, n := range sc.Names() {
					v, ok := sc.Lookup(n).(*types.Var)
					if !ok || !v.Exported() || !strings.HasPrefix(n, "Err") {
						continue
					}
					is := e.lift2(err, x.global(c.pkg, n), e.errorsIs)
					x.holds("is "+n, where, e.eq(is, e.boolc(n == c.is)), "the error of %s %s %s", c.fn, map[bool]string{true: "does not wrap", false: "wraps"}[n == c.is], n)
				}
				et := types.Universe.Lookup("error").Type()
				if len(c.tokens) > 0 {
					if s, ok := x.strOf("message", x.m(et, err, "Error")); ok {
						for _, t := range c.tokens {
							r.expect(strings.Contains(s, t), x.name+"|message "+t, where, "the message %q does not name %s", s, t)
						}
						if c.fn == "NewErrColumnsNotEqual" {
							r.expect(strings.Index(s, c.tokens[0]) < strings.Index(s, c.tokens[1]), x.name+"|order", where, "the message %q names the numbers in the wrong order", s)
						}
						r.expect(c.fn != "NewErrExist" || !strings.Contains(s, "not exist"), x.name+"|message sense", where, "the message %q says the opposite of the error", s)
					}
				}
			})
		}
		// sentinels are distinct errors
		for _, pkg := range []string{errPkg, qryPkg, fnPkg, "sql/net", "sql/stmt", "sql/system", "sql/parser"} {
			pkg := pkg
			r.scenario("sentinels of "+pkg, func(x *X) {
				sp := r.p.ssaPkgs[modPath+"/"+pkg]
				if sp == nil {
					return
				}
				var ns []string
				for _, n := range sp.Pkg.Scope().Names() {
					if v, ok := sp.Pkg.Scope().Lookup(n).(*types.Var); ok && v.Exported() && strings.HasPrefix(n, "Err") {
						ns = append(ns, n)
					}
				}
				for i, a := range ns {
					x.holds(a, pkg+"."+a, x.notNil(x.global(pkg, a)), "%s is nil", a)
					for _, b := range ns[i+1:] {
						is := e.lift2(x.global(pkg, a), x.global(pkg, b), e.errorsIs)
						x.holds(a+" "+b, pkg+"."+a, e.not(is), "%s is %s", a, b)
					}
				}
			})
		}
	})
}

func letters(s string) string {
	var b strings.Builder
	for _, c := range strings.ToLower(s) {
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func tkindOf(v *T) string {
	if v.op == OIface {
		return v.typ.String()
	}
	return ""
}

// bytesOf is the byte slice of a constant text.
func (x *X) bytesOf(s string) *T {
	var vs []*T
	for i := 0; i < len(s); i++ {
		vs = append(vs, x.e.intc(int(s[i])))
	}
	return x.slice(vs...)
}

var dataTypeNames = map[string]string{
	"BigIntType": "BIGINT", "BinaryType": "BINARY", "BitType": "BIT", "BlobType": "BLOB", "BooleanType": "BOOLEAN", "CharType": "CHAR", "CharacterType": "CHARACTER", "ClobType": "CLOB", "DateType": "DATE", "DateTimeType": "DATETIME", "DecimalType": "DECIMAL", "DoubleType": "DOUBLE", "DoublePrecisionType": "DOUBLE PRECISION", "FloatType": "FLOAT", "IntType": "INT", "IntegerType": "INTEGER", "LongBlobType": "LONGBLOB", "LongTextType": "LONGTEXT", "MediumBlobType": "MEDIUMBLOB", "MediumIntType": "MEDIUMINT", "MediumTextType": "MEDIUMTEXT", "NumericType": "NUMERIC", "RealType": "REAL", "SetType": "SET", "SmallIntType": "SMALLINT", "TextType": "TEXT", "TimeType": "TIME", "TimeStampType": "TIMESTAMP", "TinyBlobType": "TINYBLOB", "TinyIntType": "TINYINT", "TinyTextType": "TINYTEXT", "VarBinaryType": "VARBINARY", "VarCharType": "VARCHAR", "VarCharacterType": "VARCHARACTER", "YearType": "YEAR", "SerialType": "SERIAL", "BigSerialType": "BIGSERIAL", "SmallSerialType": "SMALLSERIAL", "NameType": "NAME",
}
