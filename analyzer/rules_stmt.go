package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"
	"time"
)

const stmtPkg = "sql/stmt"

// registerStmtModels stands in for the SQL parser while statements with bind
// parameters are evaluated: what it is given is noted, what it answers is one
// statement derived from the text.
func registerStmtModels(e *E) {
	registerFailingParam(e)
	for _, f := range e.prog.parserEntries() {
		old := e.models[f]
		e.models[f] = func(e *E, st *State, c *callCtx) (*T, bool) {
			if e.api && e.mockParser && len(c.args) == 2 {
				q := c.args[1]
				e.parsed = append(e.parsed, parsedCall{st.pc, q})
				if e.mockParserFails {
					return e.tuple(e.Nil, e.iface(types.NewPointer(types.Typ[types.Int]), e.newAlloc("syntax error", nil))), true
				}
				s := e.app("statement of", q)
				return e.tuple(e.newSlice(st, e.seq(e.elem(e.True, s))), e.Nil), true
			}
			if old != nil {
				return old(e, st, c)
			}
			return nil, false
		}
	}
}

// a bind parameter of the caller whose String fails
func registerFailingParam(e *E) {
	old := e.models["invoke:String"]
	e.models["invoke:String"] = func(e *E, st *State, c *callCtx) (*T, bool) {
		if e.api && len(c.args) == 1 && c.args[0].op == OSym && c.args[0].name == "failing param" {
			return e.tuple(e.str(""), e.iface(types.NewPointer(types.Typ[types.Int]), e.newAlloc("no text", nil))), true
		}
		if old != nil {
			return old(e, st, c)
		}
		return nil, false
	}
}

type parsedCall struct{ pc, q *T }

// parserEntries are the ParseString methods of the parsers of the repository.
func (p *Program) parserEntries() []string {
	var out []string
	for path, sp := range p.ssaPkgs {
		if !strings.HasPrefix(path, modPath+"/sql") || sp == nil {
			continue
		}
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if f := p.methodNamed(types.NewPointer(tn.Type()), "ParseString"); f != nil {
				out = append(out, f.String())
			}
		}
	}
	return out
}

func (x *X) bindParams(vs ...*T) *T {
	var ps []*T
	for _, v := range vs {
		ps = append(ps, x.wrap(x.fn(stmtPkg, "NewBindParam", v)))
	}
	return x.slice(ps...)
}

// bind evaluates Statements of a query with parameters and returns what the
// parser was given, the statements and the error.
func (x *X) bind(q *T, fails bool, params *T) (parsed []parsedCall, stmts, err *T) {
	e := x.e
	e.mockParser, e.mockParserFails, e.parsed = true, fails, nil
	defer func() { e.mockParser, e.mockParserFails, e.parsed = false, false, nil }()
	s := x.wrap(x.fn(stmtPkg, "NewBindStatement", x.slice(x.fn(stmtPkg, "WithBindStatementQuery", q), x.fn(stmtPkg, "WithBindStatementParams", params))))
	r := x.m(x.typ(stmtPkg, "BindStatement"), s, "Statements")
	return e.parsed, x.at(r, 0), x.at(r, 1)
}

func (e *E) anyStr(s string) *T { return e.iface(types.Typ[types.String], e.str(s)) }

func init() {
	register("C23", func(r *Run) {
		e := r.e
		r.rule("evaluate BindParam.String for every kind of value, on arbitrary strings and integers and on corner cases: the text is exactly one SQL literal that denotes the value")
		where := func(x *X) string { return x.pos(stmtPkg, "NewBindParam") }
		str := func(x *X, v *T) (*T, *T) {
			p := x.wrap(x.fn(stmtPkg, "NewBindParam", v))
			t := x.m(x.typ(stmtPkg, "BindParam"), p, "String")
			return x.at(t, 0), x.at(t, 1)
		}
		r.scenario("an arbitrary string", func(x *X) {
			s := x.strSym("s")
			got, err := str(x, e.iface(types.Typ[types.String], s))
			x.holds("no error", where(x), x.isNil(err), "a string is bound without an error")
			x.same("quoted", where(x), got, e.cat(e.str("'"), e.replaceAll(s, e.str("'"), e.str("''")), e.str("'")), "a bound string is a literal with every quote doubled")
		})
		ints := []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64}
		for _, k := range ints {
			k := k
			r.scenario("an arbitrary "+types.Typ[k].Name(), func(x *X) {
				n := e.sym("n", types.Typ[k])
				got, err := str(x, e.iface(types.Typ[k], n))
				x.holds("no error", where(x), x.isNil(err), "a number is bound without an error")
				x.same("digits", where(x), got, e.itoa(n), "a bound number is its decimal digits")
			})
		}
		kase := func(name string, v func(x *X) *T, want ...string) {
			r.scenario(name, func(x *X) {
				got, err := str(x, v(x))
				x.holds("no error", where(x), x.isNil(err), "the value is bound without an error")
				s, ok := x.strOf("text", got)
				if !ok {
					return
				}
				hit := false
				for _, w := range want {
					hit = hit || s == w
				}
				r.expect(hit, x.name+"|text", where(x), "%s is bound as %s, not as %s", name, s, want[0])
			})
		}
		for _, s := range awkward {
			s := s
			kase(fmt.Sprintf("string %q", s), func(x *X) *T { return e.anyStr(s) }, "'"+strings.ReplaceAll(s, "'", "''")+"'")
			kase(fmt.Sprintf("bytes %q", s), func(x *X) *T {
				return e.iface(types.NewSlice(types.Typ[types.Byte]), e.app("bytes", e.str(s)))
			}, "'"+strings.ReplaceAll(s, "'", "''")+"'")
		}
		kase("nil", func(x *X) *T { return e.Nil }, "NULL")
		kase("true", func(x *X) *T { return e.iface(types.Typ[types.Bool], e.True) }, "true", "TRUE", "1")
		kase("false", func(x *X) *T { return e.iface(types.Typ[types.Bool], e.False) }, "false", "FALSE", "0")
		for _, n := range []int{0, 1, -1, 42, -2147483648, 9223372036854775807} {
			n := n
			kase(fmt.Sprintf("int %d", n), func(x *X) *T { return e.iface(types.Typ[types.Int], e.intc(n)) }, fmt.Sprint(n))
			kase(fmt.Sprintf("int64 %d", n), func(x *X) *T { return e.iface(types.Typ[types.Int64], e.intc(n)) }, fmt.Sprint(n))
		}
		kase("uint64 18446744073709551615", func(x *X) *T {
			return e.iface(types.Typ[types.Uint64], e.constant(constant.MakeUint64(18446744073709551615), types.Typ[types.Uint64]))
		}, "18446744073709551615")
		for _, f := range []struct {
			v    float64
			want []string
		}{{0, []string{"0", "0.0"}}, {1.5, []string{"1.5"}}, {-0.25, []string{"-0.25"}}, {0.1, []string{"0.1"}}, {1.0 / 3, []string{"0.3333333333333333"}}, {123456.75, []string{"123456.75"}}, {1e21, []string{"1e+21", "1e21", "1000000000000000000000"}}, {1e-7, []string{"1e-07", "1e-7", "0.0000001"}}, {123456789.125, []string{"1.23456789125e+08", "123456789.125"}}} {
			f := f
			kase(fmt.Sprintf("float64 %v", f.v), func(x *X) *T {
				return e.iface(types.Typ[types.Float64], e.constant(constant.MakeFloat64(f.v), types.Typ[types.Float64]))
			}, f.want...)
		}
		for _, f := range []struct {
			v    float32
			want []string
		}{{1.5, []string{"1.5"}}, {0.1, []string{"0.1"}}, {-2.25, []string{"-2.25"}}} {
			f := f
			kase(fmt.Sprintf("float32 %v", f.v), func(x *X) *T {
				return e.iface(types.Typ[types.Float32], e.constant(constant.MakeFloat64(float64(f.v)), types.Typ[types.Float32]))
			}, f.want...)
		}
		for _, n := range []string{"NaN", "+Inf", "-Inf"} {
			for _, k := range []types.BasicKind{types.Float64, types.Float32} {
				n, k := n, k
				r.scenario(fmt.Sprintf("%s %s", types.Typ[k], n), func(x *X) {
					_, err := str(x, e.iface(types.Typ[k], e.sym(n, types.Typ[k])))
					x.holds("refused", where(x), x.notNil(err), "a float that is no number has no literal and is refused")
				})
			}
		}
		r.scenario("a time", func(x *X) {
			tp := x.e.prog.fn(stmtPkg, "NewBindParam").Prog.ImportedPackage("time")
			if tp == nil {
				return
			}
			tt := tp.Type("Time").Type()
			v := e.sym("t", tt)
			got, err := str(x, e.iface(tt, v))
			x.holds("no error", where(x), x.isNil(err), "a time is bound without an error")
			for _, at := range []time.Time{time.Date(2024, 3, 9, 17, 8, 5, 0, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 123456000, time.UTC), time.Date(2001, 1, 2, 3, 4, 5, 7000, time.UTC), time.Date(2001, 10, 20, 13, 40, 50, 1000, time.UTC), time.Date(1969, 7, 20, 20, 17, 40, 999999000, time.UTC), time.Date(9999, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(1900, 2, 28, 0, 0, 1, 1000000, time.UTC), time.Date(2024, 2, 29, 12, 0, 0, 100000000, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)} {
				m := map[int]*T{}
				e.walk(got, func(a *T) {
					if a.op != OApp || len(a.args) == 0 || a.args[0] != v {
						return
					}
					n, ok := strings.CutPrefix(a.name, "call:(time.Time).")
					if !ok {
						return
					}
					f := reflect.ValueOf(at).MethodByName(n)
					if !f.IsValid() || f.Type().NumOut() != 1 || f.Type().NumIn() != len(a.args)-1 || f.Type().IsVariadic() {
						return
					}
					var in []reflect.Value
					for i, p := range a.args[1:] {
						if s, ok := p.isStr(); ok && f.Type().In(i).Kind() == reflect.String {
							in = append(in, reflect.ValueOf(s))
						}
					}
					if len(in) != len(a.args)-1 {
						return
					}
					switch o := f.Call(in)[0]; o.Kind() {
					case reflect.Int, reflect.Int64:
						m[a.id] = e.constant(constant.MakeInt64(o.Int()), a.typ)
					case reflect.String:
						m[a.id] = e.str(o.String())
					case reflect.Bool:
						m[a.id] = e.boolc(o.Bool())
					}
				})
				s, ok := x.strOf("text", e.inst(got, m))
				if !ok {
					continue
				}
				hit := false
				for _, l := range []string{"'2006-01-02 15:04:05.999999999'", "'2006-01-02T15:04:05.999999999'", "'2006-01-02 15:04:05.999999999Z07:00'", "'2006-01-02T15:04:05.999999999Z07:00'"} {
					if w, err := time.Parse(l, s); err == nil && w.Equal(at) {
						hit = true
					}
				}
				r.expect(hit, x.name+"|"+at.String(), where(x), "the time %s is bound as %s, which does not denote it", at.Format("2006-01-02 15:04:05.000000"), s)
			}
		})
	})

	register("C24", func(r *Run) {
		e := r.e
		r.rule("evaluate Statements of a bind statement with the SQL parser replaced by a stand-in that notes its input: the parsed text is the query with every placeholder, and nothing else, replaced by its own parameter")
		where := func(x *X) string { return x.pos(stmtPkg, "NewBindStatement") }
		kase := func(q string, params []string, want string) {
			r.scenario(fmt.Sprintf("%s with %q", q, params), func(x *X) {
				var vs []*T
				for _, p := range params {
					vs = append(vs, e.anyStr(p))
				}
				parsed, stmts, err := x.bind(e.str(q), false, x.bindParams(vs...))
				if want == "" {
					x.holds("refused", where(x), x.notNil(err), "a parameter without a placeholder is an error")
					x.holds("kind", where(x), x.isErr(err, stmtPkg, "ErrNotFound"), "the error is ErrNotFound")
					return
				}
				x.holds("no error", where(x), x.isNil(err), "the statement is bound without an error")
				if len(parsed) != 1 {
					r.fail(x.name+"|parsed", where(x), "%s: the query is parsed %d times", x.name, len(parsed))
					return
				}
				got, ok := x.strOf("query", parsed[0].q)
				if !ok {
					return
				}
				r.expect(sameTokens(got, want), x.name+"|query", where(x), "%s: the parser is given %q, not %q", x.name, got, want)
				x.listIs("statements", where(x), stmts, []*T{e.app("statement of", parsed[0].q)}, "the parsed statements are returned")
			})
		}
		kase("SELECT 1", nil, "SELECT 1")
		kase("INSERT INTO t VALUES (?)", []string{"v"}, "INSERT INTO t VALUES ('v')")
		kase("INSERT INTO t VALUES (?, ?, ?)", []string{"a", "b", "c"}, "INSERT INTO t VALUES ('a', 'b', 'c')")
		kase("INSERT INTO t VALUES ($1, $2, $3)", []string{"a", "b", "c"}, "INSERT INTO t VALUES ('a', 'b', 'c')")
		kase("INSERT INTO t VALUES ($3, $1, $2)", []string{"a", "b", "c"}, "INSERT INTO t VALUES ('c', 'a', 'b')")
		kase("INSERT INTO t VALUES ($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11)", []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"}, "INSERT INTO t VALUES ('a','b','c','d','e','f','g','h','i','j','k')")
		kase("SELECT * FROM t WHERE a = $1 OR b = $1", []string{"x"}, "SELECT * FROM t WHERE a = 'x' OR b = 'x'")
		// what a value contains is not looked at again
		for _, v := range []string{"a?b", "?", "$2", "$1", "?1", "' ? '", "x' OR '1'='1", "--", "/* ? */", "\"?\"", "", "'", "; DROP TABLE t", "%v", "\\'", "日本"} {
			esc := "'" + strings.ReplaceAll(v, "'", "''") + "'"
			kase("INSERT INTO t VALUES (?, ?)", []string{v, "w"}, "INSERT INTO t VALUES ("+esc+", 'w')")
			kase("INSERT INTO t VALUES (?, ?)", []string{"w", v}, "INSERT INTO t VALUES ('w', "+esc+")")
			kase("INSERT INTO t VALUES ($2, $1)", []string{v, "w"}, "INSERT INTO t VALUES ('w', "+esc+")")
			kase("INSERT INTO t VALUES ($1, $2)", []string{v, "w"}, "INSERT INTO t VALUES ("+esc+", 'w')")
		}
		// placeholders are not looked for within literals, names and comments
		kase("SELECT * FROM t WHERE a = '?' AND b = ?", []string{"v"}, "SELECT * FROM t WHERE a = '?' AND b = 'v'")
		kase("SELECT * FROM t WHERE a = 'it''s ?' AND b = ?", []string{"v"}, "SELECT * FROM t WHERE a = 'it''s ?' AND b = 'v'")
		kase("SELECT * FROM t WHERE a = '$1' AND b = $1", []string{"v"}, "SELECT * FROM t WHERE a = '$1' AND b = 'v'")
		kase("SELECT * FROM t WHERE \"a?\" = ?", []string{"v"}, "SELECT * FROM t WHERE \"a?\" = 'v'")
		kase("SELECT * FROM t WHERE `$1` = $1", []string{"v"}, "SELECT * FROM t WHERE `$1` = 'v'")
		kase("SELECT * FROM t /* ? */ WHERE a = ?", []string{"v"}, "SELECT * FROM t /* ? */ WHERE a = 'v'")
		kase("SELECT * FROM t -- ?\nWHERE a = ?", []string{"v"}, "SELECT * FROM t -- ?\nWHERE a = 'v'")
		kase("SELECT * FROM t WHERE a = $1 -- it's", []string{"v"}, "SELECT * FROM t WHERE a = 'v' -- it's")
		kase("SELECT * FROM t WHERE a = ?/*c*/ AND b = ?--d", []string{"v", "w"}, "SELECT * FROM t WHERE a = 'v'/*c*/ AND b = 'w'--d")
		kase("SELECT * FROM t WHERE a = $2'x' OR b=?1\"y\"", []string{"v", "w"}, "SELECT * FROM t WHERE a = 'w''x' OR b='v'\"y\"")
		kase("SELECT * FROM [a?] WHERE [b$1] = ?", []string{"v"}, "SELECT * FROM [a?] WHERE [b$1] = 'v'")
		kase("SELECT * FROM `a``?` WHERE b = ?", []string{"v"}, "SELECT * FROM `a``?` WHERE b = 'v'")
		kase("SELECT * FROM \"a\"\"?\" WHERE b = ?", []string{"v"}, "SELECT * FROM \"a\"\"?\" WHERE b = 'v'")
		kase("SELECT * FROM t WHERE a = '--' AND b = ?", []string{"v"}, "SELECT * FROM t WHERE a = '--' AND b = 'v'")
		kase("SELECT * FROM t WHERE a = '/*' AND b = ?", []string{"v"}, "SELECT * FROM t WHERE a = '/*' AND b = 'v'")
		kase("SELECT * FROM t WHERE a = '[' AND b = ?", []string{"v"}, "SELECT * FROM t WHERE a = '[' AND b = 'v'")
		kase("SELECT * FROM t WHERE a = '\\' AND b = ?", []string{"v"}, "SELECT * FROM t WHERE a = '\\' AND b = 'v'")
		kase("SELECT * FROM t WHERE a = '日本?' AND b = ?", []string{"v"}, "SELECT * FROM t WHERE a = '日本?' AND b = 'v'")
		kase("SELECT * FROM t /* it's ? */ WHERE b = ?", []string{"v"}, "SELECT * FROM t /* it's ? */ WHERE b = 'v'")
		kase("SELECT * FROM t /* -- */ WHERE b = ?", []string{"v"}, "SELECT * FROM t /* -- */ WHERE b = 'v'")
		kase("SELECT * FROM t -- it's /* ?\nWHERE b = ?", []string{"v"}, "SELECT * FROM t -- it's /* ?\nWHERE b = 'v'")
		kase("SELECT * FROM t WHERE a='?'AND b=?AND c=?", []string{"v", "w"}, "SELECT * FROM t WHERE a='?'AND b='v'AND c='w'")
		kase("SELECT * FROM t WHERE a = 5-? AND b = 4/?", []string{"v", "w"}, "SELECT * FROM t WHERE a = 5-'v' AND b = 4/'w'")
		kase("SELECT * FROM t WHERE a = -? AND b = ?*2", []string{"v", "w"}, "SELECT * FROM t WHERE a = -'v' AND b = 'w'*2")
		kase("SELECT * FROM t WHERE a = ?2 AND b = ?1", []string{"v", "w"}, "SELECT * FROM t WHERE a = 'w' AND b = 'v'")
		kase("? ", []string{"v"}, "'v'")
		kase("SELECT * FROM t WHERE a = ?;", []string{"v"}, "SELECT * FROM t WHERE a = 'v';")
		kase("SELECT * FROM t WHERE a = $1;", []string{"v"}, "SELECT * FROM t WHERE a = 'v';")
		kase("SELECT * FROM t WHERE $1=a AND ?=b;", []string{"v"}, "SELECT * FROM t WHERE 'v'=a AND 'v'=b;")
		kase("SELECT * FROM t WHERE a = -- c\n?", []string{"v"}, "SELECT * FROM t WHERE a = -- c\n'v'")
		kase("SELECT * FROM t WHERE a = /**/?", []string{"v"}, "SELECT * FROM t WHERE a = /**/'v'")
		kase("SELECT * FROM t WHERE a = ''||?", []string{"v"}, "SELECT * FROM t WHERE a = ''||'v'")
		kase("SELECT * FROM t WHERE a = $1 AND b = '", []string{"v"}, "SELECT * FROM t WHERE a = 'v' AND b = '")
		kase("SELECT * FROM t WHERE a = ? AND b = 5 - ?", []string{"v", "w"}, "SELECT * FROM t WHERE a = 'v' AND b = 5 - 'w'")
		r.scenario("a symbolic value", func(x *X) {
			s := x.strSym("s")
			parsed, _, err := x.bind(e.str("SELECT * FROM t WHERE a = ? AND b = 1"), false, x.bindParams(e.iface(types.Typ[types.String], s)))
			x.holds("no error", where(x), x.isNil(err), "the statement is bound without an error")
			if len(parsed) != 1 {
				r.fail(x.name+"|parsed", where(x), "%s: the query is parsed %d times", x.name, len(parsed))
				return
			}
			x.same("query", where(x), parsed[0].q, e.cat(e.str("SELECT * FROM t WHERE a = '"), e.replaceAll(s, e.str("'"), e.str("''")), e.str("' AND b = 1")), "the query with the escaped value")
		})
		r.scenario("two symbolic values", func(x *X) {
			s, t := x.strSym("s"), x.strSym("t")
			esc := func(v *T) *T { return e.cat(e.str("'"), e.replaceAll(v, e.str("'"), e.str("''")), e.str("'")) }
			for _, q := range []string{"UPDATE t SET a = ? WHERE b = ?", "UPDATE t SET a = $1 WHERE b = $2"} {
				parsed, _, err := x.bind(e.str(q), false, x.bindParams(e.iface(types.Typ[types.String], s), e.iface(types.Typ[types.String], t)))
				x.holds("no error "+q, where(x), x.isNil(err), "the statement is bound without an error")
				if len(parsed) != 1 {
					r.fail(x.name+"|parsed", where(x), "%s: the query is parsed %d times", x.name, len(parsed))
					return
				}
				x.same("query "+q, where(x), parsed[0].q, e.cat(e.str("UPDATE t SET a = "), esc(s), e.str(" WHERE b = "), esc(t)), "the query with both escaped values in their own places")
			}
		})
		kase("SELECT * FROM t", []string{"v"}, "")
		kase("SELECT * FROM t WHERE a = ?", []string{"v", "w"}, "")
		kase("SELECT * FROM t WHERE a = '?'", []string{"v"}, "")
		kase("SELECT * FROM t WHERE a = $1", []string{"v", "w"}, "")
		kase("SELECT * FROM t WHERE a = $2", []string{"v", "w"}, "")
		r.scenario("a parse error", func(x *X) {
			parsed, _, err := x.bind(e.str("SELEC ?"), true, x.bindParams(e.anyStr("v")))
			x.holds("error", where(x), x.notNil(err), "an error of the parser is returned (%d calls)", len(parsed))
		})
		r.scenario("a parameter that cannot be rendered", func(x *X) {
			for i := 0; i < 2; i++ {
				ps := []*T{x.wrap(x.fn(stmtPkg, "NewBindParam", e.anyStr("v"))), x.wrap(x.fn(stmtPkg, "NewBindParam", e.anyStr("w")))}
				ps[i] = e.sym("failing param", x.typ(stmtPkg, "BindParam"))
				parsed, _, err := x.bind(e.str("SELECT * FROM t WHERE a = ? AND b = ?"), false, x.slice(ps...))
				x.holds(fmt.Sprintf("error %d", i), where(x), x.notNil(err), "the error of parameter %d is returned", i+1)
				r.expect(len(parsed) == 0, fmt.Sprintf("%s|parsed %d", x.name, i), where(x), "%s: the query is parsed without its parameter", x.name)
			}
		})
		r.scenario("bound twice", func(x *X) {
			// a statement can be bound and parsed again
			e.mockParser, e.parsed = true, nil
			defer func() { e.mockParser, e.parsed = false, nil }()
			s := x.wrap(x.fn(stmtPkg, "NewBindStatement", x.slice(x.fn(stmtPkg, "WithBindStatementQuery", e.str("SELECT * FROM t WHERE a = ?")), x.fn(stmtPkg, "WithBindStatementParams", x.bindParams(e.anyStr("?"))))))
			for i := 0; i < 2; i++ {
				rr := x.m(x.typ(stmtPkg, "BindStatement"), s, "Statements")
				x.holds(fmt.Sprintf("no error %d", i), where(x), x.isNil(x.at(rr, 1)), "the statement is bound without an error")
				if len(e.parsed) != i+1 {
					r.fail(x.name+"|parsed", where(x), "%s: the query is parsed %d times", x.name, len(e.parsed))
					return
				}
				if got, ok := x.strOf("query", e.parsed[i].q); ok {
					r.expect(sameTokens(got, "SELECT * FROM t WHERE a = '?'"), fmt.Sprintf("%s|query %d", x.name, i), where(x), "%s: the parser is given %q", x.name, got)
				}
			}
		})
	})
}

// walk visits every subterm once.
func (e *E) walk(t *T, f func(*T)) {
	seen := map[int]bool{}
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		f(x)
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
}
