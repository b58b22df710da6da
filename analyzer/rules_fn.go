package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

const fnPkg = "sql/fn"

func mixCase(s string) string {
	b := []byte(strings.ToLower(s))
	for i := 0; i < len(b); i += 2 {
		b[i] = strings.ToUpper(string(b[i]))[0]
	}
	return string(b)
}

// fnNames are the registered function names, or nil when they have no constant form.
func (x *X) fnNames() []string {
	v := x.fn(fnPkg, "RegisteredFunctionNames")
	cs := x.cases(v)
	if len(cs) != 1 {
		x.r.unknown("RegisteredFunctionNames has no constant form")
		return nil
	}
	var ss []string
	for _, v := range cs[0].vs {
		s, ok := v.isStr()
		if !ok {
			x.r.unknown("a registered function name is not a constant")
			return nil
		}
		ss = append(ss, s)
	}
	return ss
}

func init() {
	register("C16", func(r *Run) {
		e := r.e
		r.rule("evaluate IsRegisteredFunction, NewFunctionTypeForName, NewExecutorForName, NewAggregatorForName and NewFunction on every registered name (three letter cases, bare and followed by an argument list) and on every near miss (extended, truncated, prefixed name): a name resolves to the entry of the same name and type, a near miss to nothing")
		var names []string
		r.scenario("registry", func(x *X) { names = x.fnNames() })
		r.count("registered names", len(names))
		reg := map[string]bool{}
		for _, n := range names {
			reg[n] = true
		}
		exT, agT := types.Type(nil), types.Type(nil)
		r.scenario("types", func(x *X) { exT, agT = x.typ(fnPkg, "Executor"), x.typ(fnPkg, "Aggregator") })
		if exT == nil || agT == nil || len(names) == 0 {
			return
		}
		docs := []string{"ABS", "CEIL", "FLOOR", "ROUND", "SQRT", "LOG", "LOG10", "EXP", "POWER", "MOD", "SIN", "COS", "TAN", "RAND", "PI", "UPPER", "LOWER", "TRIM", "CURRENT_TIMESTAMP", "NOW", "MAX", "MIN", "SUM", "AVG", "COUNT", "+", "-", "*", "/", "%"}
		for _, d := range docs {
			r.expect(reg[d], "registry|has|"+d, "sql/fn.RegisteredFunctionNames", "the built-in function %s is not registered", d)
		}
		for _, n := range names {
			forms := []string{n, strings.ToLower(n), mixCase(n)}
			if len(n) > 1 {
				forms = append(forms, n+"(a)", strings.ToLower(n)+"(*)")
			}
			for fi, f := range forms {
				r.scenario("name "+f, func(x *X) {
					is := x.fn(fnPkg, "IsRegisteredFunction", e.str(f))
					x.holds("registered", x.pos(fnPkg, "IsRegisteredFunction"), is, "the registered function %s is not recognised", f)
					tt := x.fn(fnPkg, "NewFunctionTypeForName", e.str(n))
					x.holds("type", x.pos(fnPkg, "NewFunctionTypeForName"), x.isNil(x.at(tt, 1)), "the registered function %s has no function type", n)
					typ := x.at(tt, 0)
					ex := x.fn(fnPkg, "NewExecutorForName", e.str(f), e.Nil)
					ag := x.fn(fnPkg, "NewAggregatorForName", e.str(f), x.slice(x.fn(fnPkg, "WithAggregatorArguments", x.strs("a"))))
					exOK, agOK := x.isNil(x.at(ex, 1)), x.isNil(x.at(ag, 1))
					isAgg := e.eq(typ, x.konst("AggregateFunction"))
					x.holds("aggregator", x.pos(fnPkg, "NewAggregatorForName"), e.eq(agOK, isAgg), "%s resolves to an aggregator exactly if it is an aggregate function", f)
					x.holds("executor", x.pos(fnPkg, "NewExecutorForName"), e.eq(exOK, e.not(isAgg)), "%s resolves to an executor exactly if it is not an aggregate function", f)
					if exOK == e.True {
						v := x.at(ex, 0)
						x.same("executor name", x.pos(fnPkg, "NewExecutorForName"), x.m(exT, v, "Name"), e.str(n), "the executor found for %s", f)
						x.same("executor type", x.pos(fnPkg, "NewExecutorForName"), x.m(exT, v, "Type"), typ, "the type of the executor found for %s", f)
					}
					if agOK == e.True {
						v := x.at(ag, 0)
						x.same("aggregator name", x.pos(fnPkg, "NewAggregatorForName"), x.m(agT, v, "Name"), e.str(n), "the aggregator found for %s", f)
						x.same("aggregator type", x.pos(fnPkg, "NewAggregatorForName"), x.m(agT, v, "Type"), typ, "the type of the aggregator found for %s", f)
					}
					if fi < 3 {
						r.functionOf(x, f, n, typ, isAgg)
					}
				})
			}
		}
		// near misses
		seen := map[string]bool{}
		miss := func(s string) {
			u := strings.ToUpper(s)
			if seen[u] || s == "" || reg[u] {
				return
			}
			if i := strings.IndexByte(u, '('); i > 0 && reg[u[:i]] {
				return
			}
			if strings.HasSuffix(u, ")") && reg[strings.TrimSuffix(u, ")")] {
				return
			}
			seen[u] = true
			r.scenario("no function "+s, func(x *X) {
				is := x.fn(fnPkg, "IsRegisteredFunction", e.str(s))
				x.holds("registered", x.pos(fnPkg, "IsRegisteredFunction"), e.not(is), "%s is not a registered function but is recognised as one", s)
				tt := x.fn(fnPkg, "NewFunctionTypeForName", e.str(s))
				x.holds("type", x.pos(fnPkg, "NewFunctionTypeForName"), x.notNil(x.at(tt, 1)), "%s is not a registered function but has a function type", s)
				ex := x.fn(fnPkg, "NewExecutorForName", e.str(s), e.Nil)
				x.holds("executor", x.pos(fnPkg, "NewExecutorForName"), x.notNil(x.at(ex, 1)), "%s is not a registered function but an executor is found", s)
				ag := x.fn(fnPkg, "NewAggregatorForName", e.str(s), e.Nil)
				x.holds("aggregator", x.pos(fnPkg, "NewAggregatorForName"), x.notNil(x.at(ag, 1)), "%s is not a registered function but an aggregator is found", s)
			})
		}
		for _, n := range names {
			miss(n + "X")
			miss("X" + n)
			miss(n + "1")
			miss(n + "_" + n)
			miss(n + " X")
			miss(" " + n)
			miss(n + " ")
			miss(n + ";")
			miss(n + "[1]")
			miss("(" + n)
			miss(n + n)
			miss(n[:len(n)-1])
			if len(n) > 1 {
				miss(n[1:])
				miss("X" + n + "(a)")
				miss(n + "X(a)")
			}
		}
		for _, s := range []string{"FOO", "foo(a)", "x)", "(", ")", "abs_of", "\"ABS\"", "COUNTER", "SUMMARY", "&&", "^"} {
			miss(s)
		}
		// a function keeps the executor or aggregator it is given
		r.scenario("given executor", func(x *X) {
			ex := x.fn(fnPkg, "NewPower", e.Nil)
			fT := x.typ(fnPkg, "Function")
			where := x.pos(fnPkg, "WithFunctionExecutor")
			f := x.fn(fnPkg, "NewFunction", x.slice(x.fn(fnPkg, "WithFunctionExecutor", ex)))
			x.same("name", where, x.m(fT, f, "Name"), e.str("POWER"), "the name of a function with a given executor")
			x.same("type", where, x.m(fT, f, "Type"), x.konst("MathFunction"), "the type of a function with a given executor")
			g := x.m(fT, f, "Executor", e.Nil)
			x.same("executor", where, x.at(g, 0), ex, "the executor of a function with a given executor")
			x.holds("no error", where, x.isNil(x.at(g, 1)), "a given executor is refused")
		})
		r.scenario("given aggregator", func(x *X) {
			a := x.newAggr("MIN", nil, "v")
			fT := x.typ(fnPkg, "Function")
			where := x.pos(fnPkg, "WithFunctionAggregator")
			f := x.fn(fnPkg, "NewFunction", x.slice(x.fn(fnPkg, "WithFunctionAggregator", a.v)))
			x.same("name", where, x.m(fT, f, "Name"), e.str("MIN"), "the name of a function with a given aggregator")
			x.same("type", where, x.m(fT, f, "Type"), x.konst("AggregateFunction"), "the type of a function with a given aggregator")
			g := x.m(fT, f, "Aggregator", e.Nil)
			x.same("aggregator", where, x.at(g, 0), a.v, "the aggregator of a function with a given aggregator")
			x.holds("no error", where, x.isNil(x.at(g, 1)), "a given aggregator is refused")
		})
		// the registry cannot be changed through what it hands out
		r.scenario("registry is private", func(x *X) {
			v := x.fn(fnPkg, "RegisteredFunctionNames")
			cs := x.cases(v)
			if len(cs) != 1 || len(cs[0].vs) == 0 {
				return
			}
			x.setElem(v, 0, e.str("FOO"))
			w := x.cases(x.fn(fnPkg, "RegisteredFunctionNames"))
			if len(w) == 1 && len(w[0].vs) > 0 {
				x.same("names", x.pos(fnPkg, "RegisteredFunctionNames"), w[0].vs[0], cs[0].vs[0], "writing to a returned list changes the registry")
			}
			x.holds("foo", x.pos(fnPkg, "IsRegisteredFunction"), e.not(x.fn(fnPkg, "IsRegisteredFunction", e.str("FOO"))), "writing to a returned list registers a function")
		})
	})
}

// functionOf checks the Function built for a name: normalised name, type, and
// what it resolves to.
func (r *Run) functionOf(x *X, f, n string, typ, isAgg *T) {
	e := r.e
	fT := x.typ(fnPkg, "Function")
	where := x.pos(fnPkg, "WithFunctionName")
	v := x.fn(fnPkg, "NewFunction", x.slice(x.fn(fnPkg, "WithFunctionName", e.str(f)), x.fn(fnPkg, "WithFunctionArguments", x.strs("a"))))
	x.same("function name", where, x.m(fT, v, "Name"), e.str(n), "the name of the function %s", f)
	x.same("function type", where, x.m(fT, v, "Type"), typ, "the type of the function %s", f)
	x.same("function aggregator", where, x.m(fT, v, "IsAggregator"), isAgg, "whether the function %s aggregates", f)
	x.same("function text", where, x.m(fT, v, "String"), e.str(n+"(a)"), "the text of the function %s", f)
	ex := x.m(fT, v, "Executor", e.Nil)
	ag := x.m(fT, v, "Aggregator", e.Nil)
	x.holds("function executor", where, e.eq(x.isNil(x.at(ex, 1)), e.not(isAgg)), "the function %s has an executor exactly if it does not aggregate", f)
	x.holds("function aggregator value", where, e.eq(x.isNil(x.at(ag, 1)), isAgg), "the function %s has an aggregator exactly if it aggregates", f)
	if x.isNil(x.at(ex, 1)) == e.True {
		t := x.typ(fnPkg, "Executor")
		x.same("function executor name", where, x.m(t, x.at(ex, 0), "Name"), e.str(n), "the executor of the function %s", f)
		x.same("function executor arguments", where, x.m(t, x.at(ex, 0), "Arguments"), x.strs("a"), "the arguments of the executor of the function %s", f)
	}
	if x.isNil(x.at(ag, 1)) == e.True {
		t := x.typ(fnPkg, "Aggregator")
		x.same("function aggregator name", where, x.m(t, x.at(ag, 0), "Name"), e.str(n), "the aggregator of the function %s", f)
		x.same("function aggregator arguments", where, x.m(t, x.at(ag, 0), "Arguments"), x.strs("a"), "the arguments of the aggregator of the function %s", f)
	}
	x.same("function type after resolution", where, x.m(fT, v, "Type"), typ, "the type of the function %s after it was resolved", f)
}

// konst is a constant of package fn.
func (x *X) konst(name string) *T { return x.pkgConst(fnPkg, name) }

var _ = fmt.Sprint

// exSpec is what a built-in executor computes.
type exSpec struct {
	name  string
	arity int
	str   bool                            // string arguments
	dom   func(e *E, a []*T) *T           // arguments it refuses
	val   func(e *E, a []*T) (*T, string) // value and Go type
}

func math1(f string) func(e *E, a []*T) (*T, string) {
	return func(e *E, a []*T) (*T, string) { return e.fold1("call:math."+f, a[0]), "float64" }
}

func mathInt(f string) func(e *E, a []*T) (*T, string) {
	return func(e *E, a []*T) (*T, string) { return e.fold1("conv:int", e.fold1("call:math."+f, a[0])), "int" }
}

func (e *E) fold1(name string, a ...*T) *T {
	if r := e.foldApp(name, a); r != nil {
		return r
	}
	return e.app(name, a...)
}

func exSpecs(e *E) []exSpec {
	neg := func(e *E, a []*T) *T { return e.lt(a[0], e.intc(0)) }
	nonPos := func(e *E, a []*T) *T { return e.or(e.lt(a[0], e.intc(0)), e.eq(a[0], e.intc(0))) }
	bin := func(op string) func(e *E, a []*T) (*T, string) {
		return func(e *E, a []*T) (*T, string) { return e.bin(op, a[0], a[1]), "float64" }
	}
	toInt := func(e *E, v *T) *T { return e.fold1("conv:int", v) }
	return []exSpec{
		{name: "ABS", arity: 1, val: math1("Abs")},
		{name: "CEIL", arity: 1, val: mathInt("Ceil")},
		{name: "FLOOR", arity: 1, val: mathInt("Floor")},
		{name: "ROUND", arity: 1, val: mathInt("Round")},
		{name: "SQRT", arity: 1, dom: neg, val: math1("Sqrt")},
		{name: "LOG", arity: 1, dom: nonPos, val: math1("Log")},
		{name: "LOG10", arity: 1, dom: nonPos, val: math1("Log10")},
		{name: "EXP", arity: 1, val: math1("Exp")},
		{name: "SIN", arity: 1, val: math1("Sin")},
		{name: "COS", arity: 1, val: math1("Cos")},
		{name: "TAN", arity: 1, val: math1("Tan")},
		{name: "PI", arity: 0, val: func(e *E, a []*T) (*T, string) { return e.floatc(3.141592653589793), "float64" }},
		{name: "RAND", arity: 0},
		{name: "POWER", arity: 2,
			dom: func(e *E, a []*T) *T {
				return e.and(e.lt(a[0], e.intc(0)), e.not(e.eq(a[1], e.fold1("conv:float64", toInt(e, a[1])))))
			},
			val: func(e *E, a []*T) (*T, string) { return e.fold1("call:math.Pow", a[0], a[1]), "float64" }},
		{name: "MOD", arity: 2, dom: func(e *E, a []*T) *T { return e.eq(a[1], e.intc(0)) },
			val: func(e *E, a []*T) (*T, string) { return e.fold1("call:math.Mod", a[0], a[1]), "float64" }},
		{name: "UPPER", arity: 1, str: true, val: func(e *E, a []*T) (*T, string) { return e.upper(a[0]), "string" }},
		{name: "LOWER", arity: 1, str: true, val: func(e *E, a []*T) (*T, string) { return e.fold1("strings.ToLower", a[0]), "string" }},
		{name: "TRIM", arity: 1, str: true, val: func(e *E, a []*T) (*T, string) { return e.fold1("strings.TrimSpace", a[0]), "string" }},
		{name: "CURRENT_TIMESTAMP", arity: -1},
		{name: "NOW", arity: -1},
		{name: "+", arity: 2, val: bin("+")},
		{name: "-", arity: 2, val: bin("-")},
		{name: "*", arity: 2, val: bin("*")},
		{name: "/", arity: 2, val: bin("/")},
		{name: "%", arity: 2, dom: func(e *E, a []*T) *T { return e.eq(toInt(e, a[1]), e.intc(0)) },
			val: func(e *E, a []*T) (*T, string) {
				return e.fold1("conv:float64", e.bin("i%", toInt(e, a[0]), toInt(e, a[1]))), "float64"
			}},
	}
}

func init() {
	register("C17", func(r *Run) {
		e := r.e
		r.rule("evaluate Execute of every built-in function on 0..3 arguments of any value, given as a row, an []any, a Map, a map[string]any, a single value: no run-time failure, an error exactly for a wrong number of arguments, an argument that does not convert or one outside the domain of the function, and otherwise the value of the named mathematical or string function of the converted arguments in order")
		r.note("the numeric accuracy of package math and the conversions of go-safecast are taken as given")
		var exT, rowT, mapT types.Type
		r.scenario("types", func(x *X) {
			exT, rowT, mapT = x.typ(fnPkg, "Executor"), x.typ(fnPkg, "Row"), x.typ(fnPkg, "Map")
		})
		if exT == nil || rowT == nil || mapT == nil {
			return
		}
		anys := types.NewSlice(anyType)
		goMap := types.NewMap(types.Typ[types.String], anyType)
		names := []string{"a", "b", "c"}
		for _, s := range exSpecs(e) {
			s := s
			check := func(x *X, v *T, raw []*T) {
				where := x.pos(fnPkg, "NewExecutorForName")
				val, err := x.at(v, 0), x.at(v, 1)
				if s.arity >= 0 && len(raw) != s.arity {
					x.holds("arity", where, x.notNil(err), "%s of %d arguments is not refused", s.name, len(raw))
					x.holds("refused value", where, x.isNil(val), "%s of %d arguments has a value", s.name, len(raw))
					return
				}
				ok := e.True
				var as []*T
				to := "Float64"
				if s.str || s.arity < 0 {
					to = "String"
				}
				for _, a := range raw {
					c, w := e.castTerm(to, a)
					ok = e.and(ok, c)
					as = append(as, w)
				}
				if s.dom != nil {
					ok = e.and(ok, e.not(s.dom(e, as)))
				}
				if s.name == "RAND" {
					ok = e.and(ok, x.isNil(err)) // the random source may fail
				}
				x.holds("accepted", where, e.or(e.not(ok), x.isNil(err)), "%s refuses arguments of its domain", s.name)
				if s.arity > 0 {
					x.holds("refused", where, e.or(ok, x.notNil(err)), "%s accepts arguments outside its domain", s.name)
				}
				if s.val != nil {
					w, t := s.val(e, as)
					saved := x.st.pc
					x.st.pc = e.and(saved, ok)
					if x.st.pc != e.False {
						x.same("value", where, e.restrict(val, x.st.pc), e.iface(basicType(t), w), "the value of %s", s.name)
					}
					x.st.pc = saved
				}
				if s.name == "RAND" {
					r.randRange(x, where, val, ok)
				}
			}
			for k := 0; k <= 3; k++ {
				for _, form := range []string{"row", "slice", "map", "go map", "value"} {
					if form == "value" && k > 1 {
						continue
					}
					r.scenario(fmt.Sprintf("%s of %d arguments as %s", s.name, k, form), func(x *X) {
						var raw []*T
						for i := 0; i < k; i++ {
							raw = append(raw, x.anySym(names[i]))
						}
						ex := x.fn(fnPkg, "NewExecutorForName", e.str(s.name), x.slice(x.fn(fnPkg, "WithExecutorArguments", x.strs(names[:k]...))))
						if x.isNil(x.at(ex, 1)) != e.True {
							return // C16
						}
						var arg *T
						switch form {
						case "row":
							arg = e.iface(rowT, x.slice(raw...))
						case "slice":
							arg = e.iface(anys, x.slice(raw...))
						case "map", "go map":
							m := x.newMap()
							for i, v := range raw {
								e.mapStore(x.st, m, e.str(names[i]), v)
							}
							e.mapStore(x.st, m, e.str("z"), x.anySym("z"))
							arg = e.iface(mapT, m)
							if form == "go map" {
								arg = e.iface(goMap, m)
							}
						case "value":
							arg = e.Nil
							if k == 1 {
								arg = e.iface(types.Typ[types.Float64], x.fltSym("f"))
								if s.str || s.arity < 0 {
									arg = e.iface(types.Typ[types.String], x.strSym("f"))
								}
								raw = []*T{arg}
							}
						}
						check(x, x.m(exT, x.at(ex, 0), "Execute", arg), raw)
					})
				}
			}
			// arguments that are no column of the row stand for themselves
			for k := 1; k <= 3; k++ {
				for _, form := range []string{"map", "go map"} {
					r.scenario(fmt.Sprintf("%s of %d constants as %s", s.name, k, form), func(x *X) {
						lits := []string{"2.5", "4", "0.5"}[:k]
						var raw []*T
						for _, l := range lits {
							raw = append(raw, e.iface(types.Typ[types.String], e.str(l)))
						}
						ex := x.fn(fnPkg, "NewExecutorForName", e.str(s.name), x.slice(x.fn(fnPkg, "WithExecutorArguments", x.strs(lits...))))
						if x.isNil(x.at(ex, 1)) != e.True {
							return
						}
						m := x.newMap()
						e.mapStore(x.st, m, e.str("z"), x.anySym("z"))
						arg := e.iface(mapT, m)
						if form == "go map" {
							arg = e.iface(goMap, m)
						}
						check(x, x.m(exT, x.at(ex, 0), "Execute", arg), raw)
					})
				}
			}
			// chosen values: boundaries of the domains
			if s.arity > 0 {
				vals := []float64{-2.5, -1, -0.5, 0, 0.4, 0.5, 1, 2, 2.5, 3, 7, 1e10, -5e9, 5e9 + 0.5, 1e15 + 0.5, 0.49999999999999994, 1e-310, 1e-5, -3.5, 4.5, 255.5, 65536, 1 << 53}
				if s.str {
					for _, v := range append([]string{"ß", "ǆ", "ÀÉîõ", "İstanbul", "AbC dEf", " a b ", "\t a\n", "\u00a0x\u00a0", "\v\f\r\u2003", "1.50", "null", strings.Repeat("aB ", 100)}, awkward...) {
						for _, form := range []string{"row", "bytes"} {
							r.scenario(fmt.Sprintf("%s of %.40q as %s", s.name, v, form), func(x *X) {
								ex := x.fn(fnPkg, "NewExecutorForName", e.str(s.name), e.Nil)
								if x.isNil(x.at(ex, 1)) != e.True {
									return
								}
								raw := []*T{e.anyStr(v)}
								check(x, x.m(exT, x.at(ex, 0), "Execute", e.iface(rowT, x.slice(raw...))), raw)
								if form == "bytes" {
									check(x, x.fn(fnPkg, "ExecuteFunction", e.str(s.name), raw[0]), raw)
								}
							})
						}
					}
				}
				var rows [][]float64
				for _, a := range vals {
					if s.str {
						break
					}
					if s.arity == 1 {
						rows = append(rows, []float64{a})
						continue
					}
					for _, b := range []float64{-2.5, -1, 0, 0.5, 1, 3, 2, -3, 5e9, 5e9 + 0.5, 1e-5} {
						rows = append(rows, []float64{a, b})
					}
				}
				for _, row := range rows {
					r.scenario(fmt.Sprintf("%s of %v", s.name, row), func(x *X) {
						ex := x.fn(fnPkg, "NewExecutorForName", e.str(s.name), e.Nil)
						if x.isNil(x.at(ex, 1)) != e.True {
							return
						}
						var raw []*T
						for _, f := range row {
							raw = append(raw, e.iface(types.Typ[types.Float64], e.floatc(f)))
						}
						check(x, x.m(exT, x.at(ex, 0), "Execute", e.iface(rowT, x.slice(raw...))), raw)
						check(x, x.fn(fnPkg, "ExecuteFunction", e.str(s.name), e.iface(anys, x.slice(raw...))), raw)
					})
				}
			}
			// values of other kinds
			for k := 0; k <= 2; k++ {
				for _, a := range exVals {
					for _, b := range exVals {
						if k < 2 && b != exVals[0] || k == 0 && a != exVals[0] || s.str && k == 2 || s.arity < 0 {
							continue
						}
						a, b, k := a, b, k
						if s.arity >= 0 && k != s.arity {
							continue
						}
						r.scenario(fmt.Sprintf("%s of %s", s.name, strings.Join([]string{a.name, b.name}[:k], ", ")), func(x *X) {
							ex := x.fn(fnPkg, "NewExecutorForName", e.str(s.name), x.slice(x.fn(fnPkg, "WithExecutorArguments", x.strs([]string{"a", "B"}[:k]...))))
							if x.isNil(x.at(ex, 1)) != e.True {
								return
							}
							raw := []*T{a.v(e), b.v(e)}[:k]
							list := x.slice(raw...)
							check(x, x.m(exT, x.at(ex, 0), "Execute", e.iface(rowT, list)), raw)
							x.same("list", x.pos(fnPkg, "NewExecutorForName"), list, x.slice(raw...), "the list of arguments of the caller")
							// a column of the same name in another case is another column
							m := x.newMap()
							for i, n := range []string{"a", "B"}[:k] {
								e.mapStore(x.st, m, e.str(n), raw[i])
							}
							e.mapStore(x.st, m, e.str("A"), e.anyStr("7"))
							e.mapStore(x.st, m, e.str("b"), e.anyStr("9"))
							e.mapStore(x.st, m, e.str(""), e.anyStr("11"))
							check(x, x.m(exT, x.at(ex, 0), "Execute", e.iface(goMap, m)), raw)
							if k == 1 && raw[0] != e.Nil {
								check(x, x.m(exT, x.at(ex, 0), "Execute", raw[0]), raw)
								check(x, x.fn(fnPkg, "ExecuteFunction", e.str(strings.ToLower(s.name)), raw[0]), raw)
							}
							if k == 0 {
								check(x, x.m(exT, x.at(ex, 0), "Execute", e.Nil), raw)
								check(x, x.m(exT, x.at(ex, 0), "Execute", e.iface(anys, e.Nil)), raw)
								check(x, x.fn(fnPkg, "ExecuteFunction", e.str(s.name), e.Nil), raw)
							}
						})
					}
				}
			}
			if s.arity == 2 || s.arity == 1 {
				r.scenario(s.name+" of repeated columns", func(x *X) {
					as := []string{"a", "a"}[:s.arity]
					ex := x.fn(fnPkg, "NewExecutorForName", e.str(s.name), x.slice(x.fn(fnPkg, "WithExecutorArguments", x.strs("x", "y", "z")), x.fn(fnPkg, "WithExecutorArguments", x.strs(as...))))
					if x.isNil(x.at(ex, 1)) != e.True {
						return
					}
					m := x.newMap()
					e.mapStore(x.st, m, e.str("a"), e.anyStr("2"))
					raw := []*T{e.anyStr("2"), e.anyStr("2")}[:s.arity]
					check(x, x.m(exT, x.at(ex, 0), "Execute", e.iface(mapT, m)), raw)
				})
				r.scenario(s.name+" of an unnamed column", func(x *X) {
					as := []string{"", ""}[:s.arity]
					ex := x.fn(fnPkg, "NewExecutorForName", e.str(s.name), x.slice(x.fn(fnPkg, "WithExecutorArguments", x.strs(as...))))
					if x.isNil(x.at(ex, 1)) != e.True {
						return
					}
					for _, in := range []bool{true, false} {
						m := x.newMap()
						v := e.anyStr("")
						if in {
							v = e.anyStr("2")
							e.mapStore(x.st, m, e.str(""), v)
						}
						raw := []*T{v, v}[:s.arity]
						check(x, x.m(exT, x.at(ex, 0), "Execute", e.iface(mapT, m)), raw)
					}
				})
				r.scenario(s.name+" of columns that differ in case", func(x *X) {
					as := []string{"Ab", "aB"}[:s.arity]
					ex := x.fn(fnPkg, "NewExecutorForName", e.str(s.name), x.slice(x.fn(fnPkg, "WithExecutorArguments", x.strs(as...))))
					if x.isNil(x.at(ex, 1)) != e.True {
						return
					}
					m := x.newMap()
					for _, k := range []string{"ab", "AB", " Ab", "Ab ", "A", "\"Ab\""} {
						e.mapStore(x.st, m, e.str(k), e.anyStr("2"))
					}
					raw := []*T{e.anyStr("Ab"), e.anyStr("aB")}[:s.arity]
					check(x, x.m(exT, x.at(ex, 0), "Execute", e.iface(mapT, m)), raw)
				})
			}
		}
	})
}

// exVal is an argument of some kind.
type exVal struct {
	name string
	v    func(e *E) *T
}

var exVals = func() []*exVal {
	num := func(k types.BasicKind, c constant.Value) *exVal {
		return &exVal{types.Typ[k].Name() + " " + c.ExactString(), func(e *E) *T { return e.iface(types.Typ[k], e.constant(c, types.Typ[k])) }}
	}
	str := func(s string) *exVal { return &exVal{fmt.Sprintf("%q", s), func(e *E) *T { return e.anyStr(s) }} }
	return []*exVal{
		{"nil", func(e *E) *T { return e.Nil }},
		num(types.Int, constant.MakeInt64(-3)), num(types.Int, constant.MakeInt64(0)), num(types.Int64, constant.MakeInt64(1<<40)),
		num(types.Uint8, constant.MakeInt64(200)), num(types.Uint64, constant.MakeUint64(1<<52)), num(types.Int32, constant.MakeInt64(7)),
		str("2.5"), str("-4"), str("x"), str(""),
	}
}()

func basicType(n string) types.Type {
	switch n {
	case "int":
		return types.Typ[types.Int]
	case "string":
		return types.Typ[types.String]
	}
	return types.Typ[types.Float64]
}

// randRange decides that a random value lies in [0, 1) by evaluating it at the
// ends of the range of its random word.
func (r *Run) randRange(x *X, where string, val, ok *T) {
	e := r.e
	v := e.restrict(val, e.and(x.st.pc, ok))
	for _, l := range e.leaves(v) {
		if l.v.op != OIface {
			continue
		}
		var words []*T
		seen := map[int]bool{}
		var walk func(t *T)
		walk = func(t *T) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if t.op == OApp && strings.HasSuffix(t.name, ".Uint64") {
				words = append(words, t)
				return
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(l.v.args[0])
		if len(words) != 1 {
			r.unknown("%s: the random value has no single random word", x.name)
			continue
		}
		for _, w := range []uint64{0, 1, 1<<53 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1} {
			c := e.inst(l.v.args[0], map[int]*T{words[0].id: e.constant(constant.MakeUint64(w), nil)})
			f, isF := c.isFloat()
			if !isF {
				r.unknown("%s: the random value of word %d does not fold", x.name, w)
				continue
			}
			r.expect(f >= 0 && f < 1, fmt.Sprintf("%s|range", x.name), where, "RAND returns %v for the random word %#x: not in [0, 1)", f, w)
		}
	}
}
