package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C34", func(r *Run) {
		e := r.e
		r.rule("evaluate the accessors of functions, argument lists and function result sets built through the public constructors: each answers for exactly what the object was built from, executors and aggregators get the arguments of their function, and cursors yield every row once, in order")
		where := "sql/fn/func_impl.go"
		kinds := map[string]string{"ABS": "MathFunction", "SUM": "AggregateFunction", "+": "ArithOperator", "NOW": "TimeFunction", "UPPER": "StringFunction", "nosuch": "UnknownFunctionType"}
		args := [][]string{{}, {"x"}, {"*"}, {"x", "y"}, {"b", "a", "b"}, {"*", "*"}, {"*", "x"}, {"x", "*"}, {" x ", "X"}, {"", "'a, b'"}, {"**"}}
		for _, name := range []string{"ABS", "SUM", "+", "NOW", "UPPER", "nosuch"} {
			for _, as := range args {
				name, as := name, as
				r.scenario(fmt.Sprintf("%s of %q", name, as), func(x *X) {
					ft, at := x.typ(fnPkg, "Function"), x.typ(fnPkg, "Arguments")
					f := x.fnCall(strings.ToLower(name), as...)
					kind := x.pkgConst(fnPkg, kinds[name])
					up := e.str(strings.ToUpper(name))
					x.same("name", where, x.m(ft, f, "Name"), up, "the name")
					x.same("is name", where, x.m(ft, f, "IsName", up), e.True, "IsName of its name")
					x.same("is other", where, x.m(ft, f, "IsName", e.str("OTHER")), e.False, "IsName of another name")
					x.same("type", where, x.m(ft, f, "Type"), kind, "the type")
					for k, n := range kinds {
						x.same("is type "+k, where, x.m(ft, f, "IsType", x.pkgConst(fnPkg, n)), e.boolc(n == kinds[name]), "IsType of %s", n)
					}
					x.same("aggregator", where, x.m(ft, f, "IsAggregator"), e.boolc(name == "SUM"), "IsAggregator")
					x.same("function", where, x.m(ft, f, "IsFunction"), e.True, "IsFunction")
					v := x.m(ft, f, "Function")
					x.same("itself", where, x.wrap(x.at(v, 0)), x.wrap(f), "the function of a function")
					x.same("itself ok", where, x.at(v, 1), e.True, "the function of a function is found")
					x.same("asterisk", where, x.m(ft, f, "IsAsterisk"), e.False, "IsAsterisk")
					l := x.m(ft, f, "Arguments")
					x.same("args", where, x.m(at, l, "Names"), x.strs(as...), "the names of the arguments")
					x.same("args *", where, x.m(at, l, "IsAsterisk"), e.boolc(len(as) == 0 || len(as) == 1 && as[0] == "*"), "IsAsterisk of the arguments")
					x.same("args text", where, x.m(at, l, "String"), e.str(strings.Join(as, ", ")), "the text of the arguments")
					x.same("text", where, x.m(ft, f, "String"), e.str(strings.ToUpper(name)+"("+strings.Join(as, ", ")+")"), "the text")
					ex := x.m(ft, f, "Executor", x.slice())
					ag := x.m(ft, f, "Aggregator", x.slice())
					isEx := name != "SUM" && name != "nosuch"
					x.same("executor", where, x.isNil(x.at(ex, 1)), e.boolc(isEx), "whether there is an executor")
					if isEx {
						et := x.typ(fnPkg, "Executor")
						x.same("executor name", where, x.m(et, x.at(ex, 0), "Name"), up, "the name of the executor")
						x.same("executor type", where, x.m(et, x.at(ex, 0), "Type"), kind, "the type of the executor")
						x.same("executor args", where, x.m(et, x.at(ex, 0), "Arguments"), x.strs(as...), "the arguments of the executor")
						opts := x.slice(x.fn(fnPkg, "WithExecutorArguments", x.strs("z")), x.fn(fnPkg, "WithExecutorName", e.str("MINE")))
						own := x.m(ft, x.fnCall(strings.ToLower(name), as...), "Executor", opts)
						x.same("executor args kept", where, x.m(et, x.at(own, 0), "Arguments"), x.strs(as...), "the arguments of the executor asked for with options")
						x.same("executor name given", where, x.m(et, x.at(own, 0), "Name"), e.str("MINE"), "the name of the executor asked for with a name")
						again := x.m(ft, f, "Executor", x.slice())
						x.same("executor again", where, x.m(et, x.at(again, 0), "Name"), up, "the name of the executor asked again")
					}
					if name != "SUM" {
						x.holds("no aggregator", where, x.notNil(x.at(ag, 1)), "%s has an aggregator", name)
					} else if len(as) > 0 {
						x.holds("aggregator", where, x.isNil(x.at(ag, 1)), "SUM has no aggregator")
						gt := x.typ(fnPkg, "Aggregator")
						x.same("aggregator name", where, x.m(gt, x.at(ag, 0), "Name"), up, "the name of the aggregator")
						x.same("aggregator args", where, x.m(gt, x.at(ag, 0), "Arguments"), x.strs(as...), "the arguments of the aggregator")
						again := x.m(ft, f, "Aggregator", x.slice())
						x.same("aggregator again", where, x.wrap(x.at(again, 0)), x.wrap(x.at(ag, 0)), "the aggregator asked again, which keeps the rows it was given")
						x.holds("aggregator again ok", where, x.isNil(x.at(again, 1)), "SUM asked again has no aggregator")
					}
					x.same("type kept", where, x.m(ft, f, "Type"), kind, "the type after the executor and aggregator were asked for")
					x.same("name kept", where, x.m(ft, f, "Name"), up, "the name after the executor and aggregator were asked for")
				})
			}
		}
		for _, n := range append([]string{" abs", "abs ", "Abs(x)", "sum_", "sum sum"}, awkward...) {
			n := n
			r.scenario(fmt.Sprintf("name %q", n), func(x *X) {
				ft := x.typ(fnPkg, "Function")
				f := x.fnCall(n, "a")
				x.same("name", where, x.m(ft, f, "Name"), e.str(strings.ToUpper(n)), "the name")
				x.same("text", where, x.m(ft, f, "String"), e.str(strings.ToUpper(n)+"(a)"), "the text")
			})
		}
		r.scenario("names given one after the other", func(x *X) {
			ft := x.typ(fnPkg, "Function")
			for _, c := range [][3]string{{"abs", "sum", "AggregateFunction"}, {"sum", "abs", "MathFunction"}, {"nosuch", "now", "TimeFunction"}} {
				f := x.fn(fnPkg, "NewFunction", x.slice(x.fn(fnPkg, "WithFunctionName", e.str(c[0])), x.fn(fnPkg, "WithFunctionArguments", x.strs("a")), x.fn(fnPkg, "WithFunctionName", e.str(c[1])), x.fn(fnPkg, "WithFunctionArguments", x.strs("b", "c"))))
				x.same("name "+c[1], where, x.m(ft, f, "Name"), e.str(strings.ToUpper(c[1])), "the name given last")
				x.same("type "+c[1], where, x.m(ft, f, "Type"), x.pkgConst(fnPkg, c[2]), "the type of the name given last")
				x.same("args "+c[1], where, x.m(x.typ(fnPkg, "Arguments"), x.m(ft, f, "Arguments"), "Names"), x.strs("b", "c"), "the arguments given last")
			}
		})
		r.scenario("type option", func(x *X) {
			ft := x.typ(fnPkg, "Function")
			f := x.fn(fnPkg, "NewFunction", x.slice(x.fn(fnPkg, "WithFunctionType", x.pkgConst(fnPkg, "SessionFunction"))))
			x.same("type", where, x.m(ft, f, "Type"), x.pkgConst(fnPkg, "SessionFunction"), "the type given")
			f = x.fn(fnPkg, "NewFunction", x.slice())
			x.same("no type", where, x.m(ft, f, "Type"), x.pkgConst(fnPkg, "UnknownFunctionType"), "the type of a function without one")
			x.same("no args", where, x.m(x.typ(fnPkg, "Arguments"), x.m(ft, f, "Arguments"), "Names"), x.slice(), "the arguments of a function without any")
			x.holds("no executor", where, x.notNil(x.at(x.m(ft, f, "Executor", x.slice()), 1)), "a function without name has an executor")
		})
		r.scenario("arguments of the caller", func(x *X) {
			at := x.typ(fnPkg, "Arguments")
			given := x.strs("a", "b")
			l := x.fn(fnPkg, "NewArgumentsWith", given)
			x.setElem(given, 0, e.str("zz"))
			x.same("copied", "sql/fn/args.go", x.m(at, l, "Names"), x.strs("a", "b"), "the arguments after the caller changed its list")
			x.same("none", "sql/fn/args.go", x.m(at, x.fn(fnPkg, "NewArguments"), "Names"), x.slice(), "the names of no arguments")
		})
		r.scenario("argument", func(x *X) {
			at := x.typ(fnPkg, "Argument")
			s := x.strSym("s")
			a := x.fn(fnPkg, "NewArgumentWith", s)
			x.same("name", "sql/fn/arg.go", x.m(at, a, "Name"), s, "the name of an argument")
			x.same("text", "sql/fn/arg.go", x.m(at, a, "String"), s, "the text of an argument")
			x.same("is name", "sql/fn/arg.go", x.m(at, a, "IsName", s), e.True, "IsName of its name")
			for _, n := range []string{"", "*", "a", "**"} {
				v := x.fn(fnPkg, "NewArgumentWith", e.str(n))
				x.same("asterisk "+n, "sql/fn/arg.go", x.m(at, v, "IsAsterisk"), e.boolc(n == "*"), "IsAsterisk of %q", n)
				x.same("not name "+n, "sql/fn/arg.go", x.m(at, v, "IsName", e.str("A")), e.False, "IsName of another name")
			}
		})
		// executors around a function of the caller
		for _, c := range []struct {
			ctor, kind, to string
			arity          int
		}{
			{"NewCastFunctionWith", "CastFunction", "", 1},
			{"NewMathFunctionWith", "MathFunction", "Float64", -1},
			{"NewArithFunctionWith", "ArithOperator", "Float64", 2},
			{"NewStringFunctionWith", "StringFunction", "String", -1},
			{"NewTimeFunctionWith", "TimeFunction", "String", -1},
		} {
			for n := 0; n <= 3; n++ {
				c, n := c, n
				r.scenario(fmt.Sprintf("%s with %d arguments", c.ctor, n), func(x *X) {
					w := x.pos(fnPkg, c.ctor)
					f := e.prog.fn(fnPkg, c.ctor)
					if f == nil {
						x.r.anchor(fnPkg + "." + c.ctor)
						panic(errAnchor)
					}
					ft := f.Params[1].Type()
					// the function returns its arguments, or fails
					user := e.sym("user:f", ft)
					zero, failure := e.Nil, x.global(fnPkg, "ErrNotSupported")
					value := func(as []*T) *T {
						switch c.ctor {
						case "NewCastFunctionWith":
							return as[0]
						case "NewArithFunctionWith":
							return x.flt(e.bin("-", as[0], as[1]))
						case "NewMathFunctionWith":
							return e.iface(types.NewSlice(types.Typ[types.Float64]), x.slice(as...))
						}
						return e.iface(types.NewSlice(types.Typ[types.String]), x.slice(as...))
					}
					e.user = map[string]func(st *State, as []*T) *T{"user:f": func(st *State, as []*T) *T {
						switch c.ctor {
						case "NewCastFunctionWith":
							return e.tuple(as[0], e.Nil)
						case "NewArithFunctionWith":
							return e.tuple(e.bin("-", as[0], as[1]), e.Nil)
						case "NewMathFunctionWith":
							return e.tuple(e.iface(types.NewSlice(types.Typ[types.Float64]), as[0]), e.Nil)
						}
						return e.tuple(e.iface(types.NewSlice(types.Typ[types.String]), as[0]), e.Nil)
					}}
					defer func() { e.user = nil }()
					if c.ctor == "NewArithFunctionWith" {
						zero = e.floatc(0)
					}
					args := []*T{e.str("MINE"), user}
					if len(f.Params) > 2 {
						args = append(args, x.slice())
					}
					et := x.typ(fnPkg, "Executor")
					ex := x.callFn(f, args...)
					if !types.IsInterface(f.Signature.Results().At(0).Type()) {
						ex = e.iface(f.Signature.Results().At(0).Type(), ex)
					}
					x.same("name", w, x.m(et, ex, "Name"), e.str("MINE"), "the name given")
					x.same("type", w, x.m(et, ex, "Type"), x.pkgConst(fnPkg, c.kind), "the type of the executor")
					var raw, conv []*T
					ok := e.boolc(c.arity < 0 || c.arity == n)
					for i := 0; i < n; i++ {
						a := x.anySym(fmt.Sprintf("a%d", i))
						raw = append(raw, a)
						v := a
						if c.to != "" {
							good, val := e.castTerm(c.to, a)
							ok, v = e.and(ok, good), val
						}
						conv = append(conv, v)
					}
					got := x.m(et, ex, "Execute", e.iface(types.NewSlice(anyType), x.slice(raw...)))
					x.holds("refused", w, e.or(ok, x.notNil(x.at(got, 1))), "%d arguments, or one that cannot be converted, are accepted", n)
					x.holds("refused value", w, e.or(ok, x.isNil(x.at(got, 0))), "refused arguments have a value")
					if c.arity >= 0 && c.arity != n {
						return
					}
					raw, conv = nil, nil
					for i := 0; i < n; i++ {
						switch c.to {
						case "Float64":
							v := x.fltSym(fmt.Sprintf("f%d", i))
							raw, conv = append(raw, x.flt(v)), append(conv, v)
						case "String":
							v := x.strSym(fmt.Sprintf("s%d", i))
							raw, conv = append(raw, e.iface(types.Typ[types.String], v)), append(conv, v)
						default:
							v := x.anySym(fmt.Sprintf("v%d", i))
							raw, conv = append(raw, v), append(conv, v)
						}
					}
					got = x.m(et, ex, "Execute", e.iface(types.NewSlice(anyType), x.slice(raw...)))
					x.same("value", w, x.at(got, 0), value(conv), "the value: that of the function given, of the converted arguments in order")
					x.holds("no error", w, x.isNil(x.at(got, 1)), "arguments the function given accepts are refused")
					e.user["user:f"] = func(st *State, as []*T) *T { return e.tuple(zero, failure) }
					got = x.m(et, ex, "Execute", e.iface(types.NewSlice(anyType), x.slice(raw...)))
					x.holds("error", w, x.isErr(x.at(got, 1), fnPkg, "ErrNotSupported"), "the error of the function given is lost")
				})
			}
		}
		// result sets of functions
		rw := "sql/fn/resultset_impl.go"
		for n := 0; n <= 5; n++ {
			n := n
			r.scenario(fmt.Sprintf("result set of %d rows", n), func(x *X) {
				rt := x.typ(fnPkg, "ResultSet")
				cols := x.strs("a", "b")
				var rows, as, bs []*T
				for i := 0; i < n; i++ {
					a, b := x.anySym(fmt.Sprint("a", i)), x.anySym(fmt.Sprint("b", i))
					as, bs = append(as, a), append(bs, b)
					if i == 1 { // a short row
						rows = append(rows, x.slice(a))
					} else if i == 3 { // an empty one
						rows = append(rows, x.slice())
					} else {
						rows = append(rows, x.slice(a, b))
					}
				}
				rs := x.fn(fnPkg, "NewResultSet", x.slice(x.fn(fnPkg, "WithColumns", cols), x.fn(fnPkg, "WithRows", x.slice(rows...))))
				x.same("columns", rw, x.m(rt, rs, "Columns"), cols, "the columns")
				x.holds("before", rw, x.isErr(x.at(x.m(rt, rs, "Row"), 1), fnPkg, "ErrNoData"), "Row before the first Next is not ErrNoData")
				x.holds("map before", rw, x.isErr(x.at(x.m(rt, rs, "Map"), 1), fnPkg, "ErrNoData"), "Map before the first Next is not ErrNoData")
				for i := 0; i < n; i++ {
					x.same(fmt.Sprint("next ", i), rw, x.m(rt, rs, "Next"), e.True, "Next before row %d of %d", i, n)
					for k := 0; k < 2; k++ {
						v := x.m(rt, rs, "Row")
						x.holds(fmt.Sprint("row error ", i, k), rw, x.isNil(x.at(v, 1)), "Row of row %d of %d fails", i, n)
						want := []*T{as[i], bs[i]}
						if i == 1 {
							want = want[:1]
						}
						if i == 3 {
							want = nil
						}
						x.listIs(fmt.Sprint("row ", i, k), rw, x.at(v, 0), want, "row %d of %d", i, n)
						m := x.m(rt, rs, "Map")
						x.holds(fmt.Sprint("map error ", i, k), rw, x.isNil(x.at(m, 1)), "Map of row %d of %d fails", i, n)
						a, b := as[i], bs[i]
						if i == 1 || i == 3 {
							b = e.Nil
						}
						if i == 3 {
							a = e.Nil
						}
						x.same(fmt.Sprint("map ", i, k), rw, x.at(m, 0), x.mapOfPairs([]string{"a", "b"}, []*T{a, b}), "the map of row %d of %d", i, n)
					}
				}
				for k := 0; k < 2; k++ {
					x.same(fmt.Sprint("end ", k), rw, x.m(rt, rs, "Next"), e.False, "Next after the last of %d rows", n)
				}
			})
		}
		r.scenario("row and map helpers", func(x *X) {
			a, b := x.anySym("a"), x.anySym("b")
			row := x.fn(fnPkg, "NewRow", x.slice(a))
			x.listIs("append", "sql/fn/row.go", x.m(x.typ(fnPkg, "Row"), row, "Append", x.slice(b)), []*T{a, b}, "the row with a value appended")
			x.listIs("row", "sql/fn/row.go", row, []*T{a}, "the row itself")
			for n := 0; n <= 2; n++ {
				src := x.mapOfPairs([]string{"p", "q"}[:n], []*T{a, b}[:n])
				got := x.fn(fnPkg, "NewMapWithMap", src)
				x.same(fmt.Sprint("map ", n), "sql/fn/map.go", got, x.mapOfPairs([]string{"p", "q"}[:n], []*T{a, b}[:n]), "the map of a map of %d values", n)
				e.mapStore(x.st, src, e.str("r"), b)
				x.same(fmt.Sprint("map kept ", n), "sql/fn/map.go", got, x.mapOfPairs([]string{"p", "q"}[:n], []*T{a, b}[:n]), "the map of a map of %d values after that one was changed", n)
			}
		})
	})
}
