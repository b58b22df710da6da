package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
)

var aggrNames = []string{"SUM", "AVG", "MIN", "MAX", "COUNT"}

// aggrVal is the value an aggregate function has over the given inputs.
func (e *E) aggrVal(name string, vs []*T) *T {
	f := func(t *T) *T { return e.iface(types.Typ[types.Float64], t) }
	sum := e.intc(0)
	for _, v := range vs {
		sum = e.bin("+", sum, v)
	}
	ext := func(init *T, less func(a, b *T) *T) *T {
		acc := init
		for _, v := range vs {
			acc = e.ite(less(v, acc), v, acc)
		}
		return acc
	}
	switch name {
	case "COUNT":
		return f(e.intc(len(vs)))
	case "SUM":
		return f(sum)
	}
	if len(vs) == 0 {
		return e.Nil
	}
	switch name {
	case "AVG":
		return f(e.bin("/", sum, e.intc(len(vs))))
	case "MIN":
		return f(ext(e.sym("+Inf", types.Typ[types.Float64]), e.lt))
	default:
		return f(ext(e.sym("-Inf", types.Typ[types.Float64]), func(a, b *T) *T { return e.lt(b, a) }))
	}
}

// aggr is an aggregator under evaluation.
type aggr struct {
	x     *X
	t     types.Type
	rt    types.Type
	v     *T
	name  string
	where string
}

func (x *X) newAggr(name string, groups []string, args ...string) *aggr {
	r := x.fn(fnPkg, "NewAggregatorForName", x.e.str(name), x.slice(
		x.fn(fnPkg, "WithAggregatorArguments", x.strs(args...)),
		x.fn(fnPkg, "WithAggregatorGroupBys", x.strs(groups...))))
	a := &aggr{x: x, t: x.typ(fnPkg, "Aggregator"), rt: x.typ(fnPkg, "ResultSet"), v: x.at(r, 0), name: name, where: x.pos(fnPkg, "NewAggregatorForName")}
	x.holds("new", a.where, x.isNil(x.at(r, 1)), "the aggregator %s cannot be created", name)
	return a
}

// add aggregates one row in the given form; the result is its error.
func (a *aggr) add(form string, cols []string, row []*T) *T {
	x, e := a.x, a.x.e
	var arg *T
	switch form {
	case "row":
		arg = e.iface(x.typ(fnPkg, "Row"), x.slice(row...))
	case "slice":
		arg = e.iface(types.NewSlice(anyType), x.slice(row...))
	default:
		m := x.newMap()
		for i, v := range row {
			e.mapStore(x.st, m, e.str(cols[i]), v)
		}
		arg = e.iface(x.typ(fnPkg, "Map"), m)
		if form == "go map" {
			arg = e.iface(types.NewMap(types.Typ[types.String], anyType), m)
		}
	}
	return x.m(a.t, a.v, "Aggregate", arg)
}

// result compares the finalised result with the expected columns and rows.
func (a *aggr) result(tag string, cols []string, rows [][]*T, opts ...*T) {
	x := a.x
	fin := x.m(a.t, a.v, "Finalize", x.slice(opts...))
	x.resultSet(tag, a.where, fin, a.rt, cols, rows)
}

func (x *X) resultSet(tag, where string, fin *T, rt types.Type, cols []string, rows [][]*T) {
	x.holds(tag+" finalize", where, x.isNil(x.at(fin, 1)), "%s: the result cannot be finalised", tag)
	rs := x.at(fin, 0)
	if cols != nil {
		x.same(tag+" columns", where, x.m(rt, rs, "Columns"), x.strs(cols...), "%s: the result columns", tag)
	}
	for i, row := range rows {
		x.holds(tag+" next", where, x.m(rt, rs, "Next"), "%s: row %d of %d is missing", tag, i+1, len(rows))
		got := x.m(rt, rs, "Row")
		x.holds(tag+" row error", where, x.isNil(x.at(got, 1)), "%s: row %d cannot be read", tag, i+1)
		x.same(tag+" row", where, x.at(got, 0), x.slice(row...), "%s: row %d", tag, i+1)
	}
	x.holds(tag+" end", where, x.e.not(x.m(rt, rs, "Next")), "%s: there are more rows than the expected %d", tag, len(rows))
}

func (x *X) flt(t *T) *T { return x.e.iface(types.Typ[types.Float64], t) }

var aggrForms = []string{"row", "slice", "map", "go map"}

func init() {
	register("C18", func(r *Run) {
		e := r.e
		r.rule("evaluate SUM, AVG, MIN, MAX and COUNT over 0..3 rows of any numbers, given in each accepted form, before and after Reset, and a set of aggregators: the result has the named column and the value of the aggregate over exactly the rows accepted since the last Reset; a refused row changes nothing")
		for _, n := range aggrNames {
			for k := 0; k <= 3; k++ {
				for _, form := range aggrForms {
					if k == 0 && form != "row" {
						continue
					}
					r.scenario(fmt.Sprintf("%s of %d rows as %s", n, k, form), func(x *X) {
						a := x.newAggr(n, nil, "v")
						var vs []*T
						for i := 0; i < k; i++ {
							v := x.fltSym(fmt.Sprintf("v%d", i))
							vs = append(vs, v)
							x.holds("aggregate", a.where, x.isNil(a.add(form, []string{"v"}, []*T{x.flt(v)})), "%s refuses a number", n)
						}
						col := []string{n + "(v)"}
						a.result("first", col, [][]*T{{e.aggrVal(n, vs)}})
						a.result("again", col, [][]*T{{e.aggrVal(n, vs)}})
						// more rows after a result
						w := x.fltSym("w")
						x.holds("aggregate more", a.where, x.isNil(a.add(form, []string{"v"}, []*T{x.flt(w)})), "%s refuses a number", n)
						a.result("more", col, [][]*T{{e.aggrVal(n, append(append([]*T{}, vs...), w))}})
						x.holds("reset", a.where, x.isNil(x.m(a.t, a.v, "Reset", e.Nil)), "%s cannot be reset", n)
						a.result("after reset", col, [][]*T{{e.aggrVal(n, nil)}})
						x.holds("aggregate after reset", a.where, x.isNil(a.add(form, []string{"v"}, []*T{x.flt(w)})), "%s refuses a number after a reset", n)
						a.result("reused", col, [][]*T{{e.aggrVal(n, []*T{w})}})
					})
				}
			}
			// chosen numbers
			for _, fs := range [][]float64{{1, 2, 3}, {3, 2, 1}, {-1, -2}, {0, 5}, {5, 0}, {-3, 0}, {2.5, -2.5, 1}, {7}, {math.Inf(1)}, {math.Inf(-1)}, {math.Inf(1), math.Inf(1)}, {1e300}, {-1e300}, {math.MaxFloat64}, {-math.MaxFloat64}} {
				r.scenario(fmt.Sprintf("%s of %v", n, fs), func(x *X) {
					a := x.newAggr(n, nil, "v")
					var vs []*T
					for _, f := range fs {
						vs = append(vs, e.floatc(f))
						x.holds("aggregate", a.where, x.isNil(a.add("row", nil, []*T{x.flt(e.floatc(f))})), "%s refuses a number", n)
					}
					a.result("numbers", []string{n + "(v)"}, [][]*T{{e.aggrVal(n, vs)}})
				})
			}
			// every accepted type of number
			r.scenario(n+" of several types", func(x *X) {
				a := x.newAggr(n, nil, "v")
				i, s := x.intSym("i"), e.str("12.5")
				x.holds("int", a.where, x.isNil(a.add("row", nil, []*T{e.iface(types.Typ[types.Int], i)})), "%s refuses an int", n)
				x.holds("text", a.where, x.isNil(a.add("row", nil, []*T{e.iface(types.Typ[types.String], s)})), "%s refuses numeric text", n)
				fi := e.app("conv:float64", i)
				a.result("types", nil, [][]*T{{e.aggrVal(n, []*T{fi, e.floatc(12.5)})}})
			})
			r.scenario(n+" of every type of number", func(x *X) {
				for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64} {
					a := x.newAggr(n, nil, "v")
					t := types.Typ[k]
					v, w := e.intc(7), e.floatc(7)
					switch k {
					case types.Float32, types.Float64:
						v = e.floatc(7)
					}
					x.holds(t.Name(), a.where, x.isNil(a.add("row", nil, []*T{e.iface(t, v)})), "%s refuses the %s", n, t.Name())
					a.result(t.Name(), []string{n + "(v)"}, [][]*T{{e.aggrVal(n, []*T{w})}})
				}
			})
			r.scenario(n+" of a long name", func(x *X) {
				nm := strings.Repeat("column_", 12)
				a := x.newAggr(n, []string{nm + "g"}, nm)
				v := x.fltSym("v")
				k := e.iface(types.Typ[types.String], e.str("k"))
				x.holds("aggregate", a.where, x.isNil(a.add("map", []string{nm, nm + "g"}, []*T{x.flt(v), k})), "%s refuses a number", n)
				a.result("long", []string{nm + "g", n + "(" + nm + ")"}, [][]*T{{k, e.aggrVal(n, []*T{v})}})
			})
			r.scenario(n+" of many rows", func(x *X) {
				a := x.newAggr(n, nil, "v")
				var vs []*T
				for i := 0; i < 40; i++ {
					v := e.floatc(float64((i*7)%40 + 3))
					vs = append(vs, v)
					x.holds("aggregate", a.where, x.isNil(a.add("row", nil, []*T{x.flt(v)})), "%s refuses a number", n)
				}
				a.result("many", []string{n + "(v)"}, [][]*T{{e.aggrVal(n, vs)}})
			})
			r.scenario(n+" of rows without its column", func(x *X) {
				for _, c := range []string{"v", ""} {
					a := x.newAggr(n, nil, c)
					v := x.fltSym("v")
					for _, form := range []string{"map", "go map"} {
						x.holds(form+c, a.where, x.notNil(a.add(form, []string{n + "(" + c + ")", "V", c + " ", "t." + c, "*", n}, []*T{x.flt(v), x.flt(v), x.flt(v), x.flt(v), x.flt(v), x.flt(v)})), "%s(%s) accepts a map without its column", n, c)
					}
					a.result("none", []string{n + "(" + c + ")"}, [][]*T{{e.aggrVal(n, nil)}})
				}
			})
			r.scenario(n+" reset twice", func(x *X) {
				a := x.newAggr(n, nil, "v")
				v, w := x.fltSym("v"), x.fltSym("w")
				strT := types.Typ[types.String]
				k := e.iface(strT, e.str("k"))
				reset := func(tag string, o ...*T) {
					x.holds(tag, a.where, x.isNil(x.m(a.t, a.v, "Reset", x.slice(o...))), "%s cannot be reset", n)
				}
				for i := 0; i < 2; i++ {
					x.holds("first", a.where, x.isNil(a.add("row", nil, []*T{x.flt(v)})), "%s refuses a number", n)
					reset("to group", e.iface(strT, e.str("g")))
					x.holds("second", a.where, x.isNil(a.add("row", nil, []*T{k, x.flt(w)})), "%s refuses a number by group", n)
					reset("to no group", e.iface(types.NewSlice(strT), x.strs()))
					a.result("none", []string{n + "(v)"}, [][]*T{{e.aggrVal(n, nil)}})
					x.holds("third", a.where, x.isNil(a.add("row", nil, []*T{x.flt(w)})), "%s refuses a number", n)
					a.result("one", []string{n + "(v)"}, [][]*T{{e.aggrVal(n, []*T{w})}})
				}
				reset("to another column", e.iface(x.typ(fnPkg, "aggrOption"), x.fn(fnPkg, "WithAggregatorArguments", x.strs("z"))))
				a.result("other", []string{n + "(z)"}, [][]*T{{e.aggrVal(n, nil)}})
				x.holds("other", a.where, x.isNil(a.add("map", []string{"z"}, []*T{x.flt(v)})), "%s refuses a number", n)
				a.result("other one", []string{n + "(z)"}, [][]*T{{e.aggrVal(n, []*T{v})}})
			})
			// refused rows
			r.scenario(n+" of a refused row", func(x *X) {
				a := x.newAggr(n, nil, "v")
				v := x.fltSym("v")
				bad := e.iface(types.Typ[types.String], e.str("abc"))
				x.holds("aggregate", a.where, x.isNil(a.add("row", nil, []*T{x.flt(v)})), "%s refuses a number", n)
				x.holds("text", a.where, x.notNil(a.add("row", nil, []*T{bad})), "%s accepts a value that is no number", n)
				x.holds("short", a.where, x.notNil(a.add("row", nil, nil)), "%s accepts a row without its column", n)
				x.holds("long", a.where, x.notNil(a.add("row", nil, []*T{x.flt(v), x.flt(v)})), "%s accepts a row with too many columns", n)
				x.holds("map", a.where, x.notNil(a.add("map", []string{"w"}, []*T{x.flt(v)})), "%s accepts a map without its column", n)
				x.holds("type", a.where, x.notNil(x.m(a.t, a.v, "Aggregate", e.iface(types.Typ[types.Int], e.intc(1)))), "%s accepts a value that is no row", n)
				a.result("refused", []string{n + "(v)"}, [][]*T{{e.aggrVal(n, []*T{v})}})
			})
			r.scenario(n+" by group of a refused row", func(x *X) {
				a := x.newAggr(n, []string{"g"}, "v")
				v := x.fltSym("v")
				k := func(s string) *T { return e.iface(types.Typ[types.String], e.str(s)) }
				bad := k("abc")
				x.holds("aggregate", a.where, x.isNil(a.add("row", nil, []*T{k("a"), x.flt(v)})), "%s refuses a number", n)
				x.holds("text", a.where, x.notNil(a.add("row", nil, []*T{k("a"), bad})), "%s accepts a value that is no number", n)
				x.holds("new group", a.where, x.notNil(a.add("row", nil, []*T{k("b"), bad})), "%s accepts a value that is no number", n)
				x.holds("short", a.where, x.notNil(a.add("row", nil, []*T{k("a")})), "%s accepts a row without its column", n)
				x.holds("long", a.where, x.notNil(a.add("row", nil, []*T{k("a"), x.flt(v), x.flt(v)})), "%s accepts a row with too many columns", n)
				for _, form := range []string{"map", "go map"} {
					x.holds(form+" without group", a.where, x.notNil(a.add(form, []string{"v"}, []*T{x.flt(v)})), "%s accepts a map without the column it groups by", n)
					x.holds(form+" without value", a.where, x.notNil(a.add(form, []string{"g", "w"}, []*T{k("a"), x.flt(v)})), "%s accepts a map without its column", n)
					x.holds(form+" text", a.where, x.notNil(a.add(form, []string{"g", "v"}, []*T{k("c"), bad})), "%s accepts a value that is no number", n)
				}
				a.result("refused", []string{"g", n + "(v)"}, [][]*T{{k("a"), e.aggrVal(n, []*T{v})}})
			})
			// several columns: refused, or each has its aggregate
			for _, groups := range [][]string{nil, {"g"}} {
				for _, form := range aggrForms {
					r.scenario(fmt.Sprintf("%s of two columns by %d as %s", n, len(groups), form), func(x *X) {
						g := x.fn(fnPkg, "NewAggregatorForName", e.str(n), x.slice(
							x.fn(fnPkg, "WithAggregatorArguments", x.strs("v", "w")),
							x.fn(fnPkg, "WithAggregatorGroupBys", x.strs(groups...))))
						if x.isNil(x.at(g, 1)) != e.True {
							return
						}
						a := &aggr{x: x, t: x.typ(fnPkg, "Aggregator"), rt: x.typ(fnPkg, "ResultSet"), v: x.at(g, 0), name: n, where: x.pos(fnPkg, "NewAggregatorForName")}
						cols := append(append([]string{}, groups...), "v", "w")
						var key []*T
						for range groups {
							key = append(key, e.iface(types.Typ[types.String], e.str("k")))
						}
						var vs, ws []*T
						for i := 0; i < 2; i++ {
							v, w := x.fltSym(fmt.Sprintf("v%d", i)), x.fltSym(fmt.Sprintf("w%d", i))
							vs, ws = append(vs, v), append(ws, w)
							x.holds("aggregate", a.where, x.isNil(a.add(form, cols, append(append([]*T{}, key...), x.flt(v), x.flt(w)))), "%s refuses a row of numbers", n)
						}
						a.result("two columns", append(append([]string{}, groups...), n+"(v)", n+"(w)"), [][]*T{append(append([]*T{}, key...), e.aggrVal(n, vs), e.aggrVal(n, ws))})
					})
				}
			}
			r.scenario(n+" without argument", func(x *X) {
				g := x.fn(fnPkg, "NewAggregatorForName", e.str(n), e.Nil)
				x.holds("refused", x.pos(fnPkg, "NewAggregatorForName"), x.notNil(x.at(g, 1)), "%s without an argument is accepted", n)
			})
		}
		r.scenario("COUNT(*)", func(x *X) {
			a := x.newAggr("COUNT", nil, "*")
			for i := 0; i < 3; i++ {
				x.holds("aggregate", a.where, x.isNil(a.add("map", []string{"v"}, []*T{x.anySym("any")})), "COUNT(*) refuses a map")
			}
			a.result("count", []string{"COUNT(*)"}, [][]*T{{x.flt(e.intc(3))}})
		})
		r.scenario("a set whose list is reused", func(x *X) {
			sum, max := x.newAggr("SUM", nil, "v"), x.newAggr("MAX", nil, "v")
			l := x.slice(sum.v, sum.v)
			st := x.typ(fnPkg, "AggregatorSet")
			p := e.newAlloc("set", st)
			x.setElem(l, 1, max.v)
			x.st.heap[p.id] = x.fn(fnPkg, "NewAggregatorSetWith", l)
			x.setElem(l, 1, sum.v)
			pt, where := types.NewPointer(st), x.pos(fnPkg, "NewAggregatorSetWith")
			v, w := x.fltSym("v"), x.fltSym("w")
			for _, f := range []*T{v, w} {
				x.holds("aggregate", where, x.isNil(x.m(pt, p, "Aggregate", e.iface(x.typ(fnPkg, "Row"), x.slice(x.flt(f))))), "a set of aggregators refuses a row")
			}
			x.resultSet("set", where, x.m(pt, p, "Finalize"), x.typ(fnPkg, "ResultSet"), []string{"SUM(v)", "MAX(v)"}, [][]*T{{e.aggrVal("SUM", []*T{v, w}), e.aggrVal("MAX", []*T{v, w})}})
		})
		// a row that one of a set refuses is aggregated by none
		for _, groups := range [][]string{nil, {"g"}} {
			for _, n := range aggrNames {
				for _, m := range aggrNames {
					r.scenario(fmt.Sprintf("set of %s and %s by %d columns given a row that only one accepts", n, m, len(groups)), func(x *X) {
						a, b := x.newAggr(n, groups, "v"), x.newAggr(m, groups, "w")
						st := x.typ(fnPkg, "AggregatorSet")
						p := e.newAlloc("set", st)
						x.st.heap[p.id] = x.fn(fnPkg, "NewAggregatorSetWith", x.slice(a.v, b.v))
						pt, where := types.NewPointer(st), x.pos(fnPkg, "NewAggregatorSetWith")
						v, w := x.fltSym("v"), x.fltSym("w")
						text := e.iface(types.Typ[types.String], e.str("abc"))
						add := func(form string, cols []string, vals ...*T) *T {
							mp := x.newMap()
							for i := range vals {
								e.mapStore(x.st, mp, e.str(cols[i]), vals[i])
							}
							for _, g := range groups {
								e.mapStore(x.st, mp, e.str(g), e.iface(types.Typ[types.String], e.str("k")))
							}
							t := x.typ(fnPkg, "Map")
							if form == "go map" {
								t = types.NewMap(types.Typ[types.String], anyType)
							}
							return x.m(pt, p, "Aggregate", e.iface(t, mp))
						}
						for _, form := range []string{"map", "go map"} {
							x.holds(form+" second missing", where, x.notNil(add(form, []string{"v"}, x.flt(v))), "a set of aggregators accepts a map without the column of one of them")
							x.holds(form+" first missing", where, x.notNil(add(form, []string{"w"}, x.flt(v))), "a set of aggregators accepts a map without the column of one of them")
							x.holds(form+" second text", where, x.notNil(add(form, []string{"v", "w"}, x.flt(v), text)), "a set of aggregators accepts a value that is no number")
							x.holds(form+" first text", where, x.notNil(add(form, []string{"v", "w"}, text, x.flt(v))), "a set of aggregators accepts a value that is no number")
						}
						x.holds("row", where, x.notNil(x.m(pt, p, "Aggregate", e.iface(types.Typ[types.Int], e.intc(1)))), "a set of aggregators accepts a value that is no row")
						x.holds("accepted", where, x.isNil(add("map", []string{"v", "w"}, x.flt(v), x.flt(w))), "a set of aggregators refuses a row")
						var row []*T
						for range groups {
							row = append(row, e.iface(types.Typ[types.String], e.str("k")))
						}
						row = append(row, e.aggrVal(n, []*T{v}), e.aggrVal(m, []*T{w}))
						x.resultSet("set", where, x.m(pt, p, "Finalize"), x.typ(fnPkg, "ResultSet"), append(append([]string{}, groups...), n+"(v)", m+"(w)"), [][]*T{row})
					})
				}
			}
		}
		// sets
		for _, groups := range [][]string{nil, {"g"}, {"g", "h"}} {
			for _, names := range [][]string{{"SUM"}, {"MIN", "MAX"}, {"SUM", "COUNT", "AVG"}} {
				r.scenario(fmt.Sprintf("set %s by %d columns", strings.Join(names, ","), len(groups)), func(x *X) {
					opts := x.slice(x.fn(fnPkg, "WithAggregatorArguments", x.strs("v")), x.fn(fnPkg, "WithAggregatorGroupBys", x.strs(groups...)))
					where := x.pos(fnPkg, "NewAggregatorSetForNames")
					s := x.fn(fnPkg, "NewAggregatorSetForNames", x.strs(names...), opts)
					x.holds("new", where, x.isNil(x.at(s, 1)), "a set of aggregators cannot be created")
					st := x.typ(fnPkg, "AggregatorSet")
					p := e.newAlloc("set", st)
					x.st.heap[p.id] = x.at(s, 0)
					pt := types.NewPointer(st)
					for round := 0; round < 2; round++ {
						x.holds("reset", where, x.isNil(x.m(pt, p, "Reset", e.Nil)), "a set of aggregators cannot be reset")
						keys := [][]string{{"a", "p"}, {"b", "p"}, {"a", "p"}}
						var order []string
						vals := map[string][]*T{}
						for i, k := range keys {
							v := x.fltSym(fmt.Sprintf("v%d_%d", round, i))
							var row []*T
							key := ""
							for j := range groups {
								row = append(row, e.iface(types.Typ[types.String], e.str(k[j])))
								key += k[j] + "|"
							}
							if vals[key] == nil {
								order = append(order, key)
							}
							vals[key] = append(vals[key], v)
							x.holds("aggregate", where, x.isNil(x.m(pt, p, "Aggregate", e.iface(x.typ(fnPkg, "Row"), x.slice(append(row, x.flt(v))...)))), "a set of aggregators refuses a row")
						}
						cols := append([]string{}, groups...)
						for _, n := range names {
							cols = append(cols, n+"(v)")
						}
						var rows [][]*T
						for _, k := range order {
							var row []*T
							for j, f := range strings.Split(strings.TrimSuffix(k, "|"), "|") {
								if j < len(groups) {
									row = append(row, e.iface(types.Typ[types.String], e.str(f)))
								}
							}
							for _, n := range names {
								row = append(row, e.aggrVal(n, vals[k]))
							}
							rows = append(rows, row)
						}
						x.resultSet("set", where, x.m(pt, p, "Finalize"), x.typ(fnPkg, "ResultSet"), cols, rows)
					}
				})
			}
		}
	})

	register("C19", func(r *Run) {
		e := r.e
		r.rule("evaluate grouped aggregation over rows whose group values are equal, different, empty, NULL, or contain the separators and quotes a key could be built from: one result row per distinct combination, holding its own values and the aggregate of exactly its rows, in first-seen order, or in the order of the values when asked; the same under every iteration order of the maps involved")
		var bads []*T
		e.sortCmp = func(pos token.Pos, bad *T) { bads = append(bads, bad) }
		type val = any
		cases := [][][]val{
			{{"a"}},
			{{"a"}, {"a"}},
			{{"a"}, {"b"}},
			{{"b"}, {"a"}, {"b"}},
			{{"c"}, {"a"}, {"b"}},
			{{"b"}, {"c"}, {"a"}, {"b"}},
			{{""}, {nil}},
			{{nil}, {nil}},
			{{nil}, {"NULL"}},
			{{""}, {","}},
			{{"a"}, {"A"}},
			{{"a"}, {"a "}},
			{{2}, {10}, {1}, {2}},
			{{-1}, {3}, {-20}},
			{{1}, {12}, {2}},
			{{"a", "b"}},
			{{"a", "b"}, {"b", "a"}},
			{{"a", "b"}, {"a", "c"}, {"a", "b"}},
			{{"b", "a"}, {"a", "z"}, {"a", "c"}},
			{{"a", "b"}, {"c", "b"}},
			{{"a,b", "c"}, {"a", "b,c"}},
			{{"a", ""}, {"", "a"}},
			{{",", ""}, {"", ","}},
			{{"", ""}, {",", ""}},
			{{`a","b`, "c"}, {"a", `b","c`}},
			{{`a\`, "b"}, {"a", `\b`}},
			{{`a\,b`, "c"}, {`a\`, `b,c`}},
			{{`a"`, `b`}, {`a`, `"b`}},
			{{"a|b", "c"}, {"a", "b|c"}},
			{{"a\x00b", "c"}, {"a", "b\x00c"}},
			{{"ab", "c"}, {"a", "bc"}},
			{{"a b", "c"}, {"a", "b c"}},
			{{"a:b", "c"}, {"a", "b:c"}},
			{{"a;b", "c"}, {"a", "b;c"}},
			{{"a-b", "c"}, {"a", "b-c"}},
			{{"a_b", "c"}, {"a", "b_c"}},
			{{"a/b", "c"}, {"a", "b/c"}},
			{{"a.b", "c"}, {"a", "b.c"}},
			{{"a\tb", "c"}, {"a", "b\tc"}},
			{{"a\nb", "c"}, {"a", "b\nc"}},
			{{nil, "a"}, {"", "a"}, {"a", nil}},
			{{1, 23}, {12, 3}},
			{{false}, {true}, {false}},
			{{0}, {false}},
			{{1}, {true}},
			{{1.5}, {1.25}, {1.5}},
			{{0.1}, {0.1000000001}},
			{{1e15}, {1e15 + 1}},
			{{9007199254740993}, {9007199254740992}},
			{{"b"}, {nil}, {"a"}, {nil}},
			{{2}, {nil}, {1}},
			{{nil}, {"a"}},
			{{"b", nil}, {nil, "b"}, {"a", nil}, {"b", "a"}},
			{{"a", "a"}, {"b", "b"}, {"a", "a"}},
			{{"10"}, {"9"}, {"1"}},
			{{"ä"}, {"a"}, {"a\u0308"}},
			{{"\xff"}, {"\xfe"}, {"\ufffd"}},
			{{1, 2}, {1, 10}, {0, 5}},
		}
		orders := []string{"", "OrderByNone", "OrderByAsc", "OrderByDesc"}
		cv := func(v val) *T {
			switch v := v.(type) {
			case string:
				return e.iface(types.Typ[types.String], e.str(v))
			case int:
				return e.iface(types.Typ[types.Int], e.intc(v))
			case bool:
				return e.iface(types.Typ[types.Bool], e.boolc(v))
			case float64:
				return e.iface(types.Typ[types.Float64], e.floatc(v))
			}
			return e.Nil
		}
		all := []string{"g", "h"}
		for _, keys := range cases {
			groups := all[:len(keys[0])]
			// values of one type are ordered; NULL comes before every value
			plain := true
			for j := range keys[0] {
				kind := ""
				for _, k := range keys {
					switch k[j].(type) {
					case string, int:
						if t := fmt.Sprintf("%T", k[j]); kind != "" && kind != t {
							plain = false
						} else {
							kind = t
						}
					case nil:
					default:
						plain = false
					}
				}
			}
			for ni, n := range aggrNames {
				for oi, ord := range orders {
					for fi, form := range aggrForms {
						// every aggregate once, every order and form for one of them
						if ni > 0 && oi > 0 || oi > 0 && fi > 0 || ni > 1 && fi > 0 || oi > 1 && !plain {
							continue
						}
						bads = nil
						r.scenario(fmt.Sprintf("%s by %s %s as %s", n, strings.ReplaceAll(fmt.Sprintf("%#v", keys), "interface {}", "any"), ord, form), func(x *X) {
							a := x.newAggr(n, groups, "v")
							cols := append(append([]string{}, groups...), "v")
							for round := 0; round < 2; round++ {
								var order []int
								vals := map[int][]*T{}
								for i, k := range keys {
									first := i
									for j := 0; j < i; j++ {
										if fmt.Sprintf("%#v", keys[j]) == fmt.Sprintf("%#v", k) {
											first = j
											break
										}
									}
									if first == i {
										order = append(order, i)
									}
									v := x.fltSym(fmt.Sprintf("v%d_%d", round, i))
									vals[first] = append(vals[first], v)
									var row []*T
									for _, f := range k {
										row = append(row, cv(f))
									}
									x.holds("aggregate", a.where, x.isNil(a.add(form, cols, append(row, x.flt(v)))), "%s refuses a row", n)
								}
								var seen [][]*T
								for _, i := range order {
									var row []*T
									for _, f := range keys[i] {
										row = append(row, cv(f))
									}
									seen = append(seen, append(row, e.aggrVal(n, vals[i])))
								}
								switch ord {
								case "OrderByAsc":
									sortKeys(keys, order, false)
								case "OrderByDesc":
									sortKeys(keys, order, true)
								}
								var rows [][]*T
								for _, i := range order {
									var row []*T
									for _, f := range keys[i] {
										row = append(row, cv(f))
									}
									rows = append(rows, append(row, e.aggrVal(n, vals[i])))
								}
								var opts []*T
								if ord != "" {
									opts = append(opts, e.iface(x.typ(fnPkg, "OrderBy"), x.konst(ord)))
								}
								a.result("groups", append(append([]string{}, groups...), n+"(v)"), rows, opts...)
								if oi > 1 {
									// the order asked for once does not stay
									a.result("unordered", append(append([]string{}, groups...), n+"(v)"), seen)
								}
								x.holds("reset", a.where, x.isNil(x.m(a.t, a.v, "Reset", e.Nil)), "%s cannot be reset", n)
								a.result("after reset", nil, nil, opts...)
							}
						})
						for _, b := range bads {
							r.never(fmt.Sprintf("%s|comparison", ord), "sql/fn.Finalize", b, "the group order asks for both of two groups to come first")
						}
					}
				}
			}
		}
		e.sortCmp = nil
		r.scenario("groups of bytes", func(x *X) {
			a := x.newAggr("SUM", []string{"g"}, "v")
			bt := types.NewSlice(types.Typ[types.Uint8])
			k := func(s string) *T { return e.iface(bt, x.bytesOf(s)) }
			v, w, u := x.fltSym("v"), x.fltSym("w"), x.fltSym("u")
			p, q := k("ab"), k("cd")
			x.holds("first", a.where, x.isNil(a.add("row", nil, []*T{p, x.flt(v)})), "SUM refuses a row")
			x.holds("second", a.where, x.isNil(a.add("row", nil, []*T{q, x.flt(w)})), "SUM refuses a row")
			x.holds("third", a.where, x.isNil(a.add("row", nil, []*T{k("ab"), x.flt(u)})), "SUM refuses a row")
			a.result("bytes", nil, [][]*T{{p, e.aggrVal("SUM", []*T{v, u})}, {q, e.aggrVal("SUM", []*T{w})}})
		})
		// the rows handed in stay the caller's
		r.scenario("row buffer reused", func(x *X) {
			a := x.newAggr("SUM", []string{"g"}, "v")
			v, w := x.fltSym("v"), x.fltSym("w")
			k := func(s string) *T { return cv(s) }
			row := x.slice(k("a"), x.flt(v))
			arg := e.iface(x.typ(fnPkg, "Row"), row)
			x.holds("aggregate", a.where, x.isNil(x.m(a.t, a.v, "Aggregate", arg)), "SUM refuses a row")
			x.setElem(row, 0, k("b"))
			x.setElem(row, 1, x.flt(w))
			x.holds("aggregate again", a.where, x.isNil(x.m(a.t, a.v, "Aggregate", arg)), "SUM refuses a row")
			a.result("buffer", nil, [][]*T{{k("a"), e.aggrVal("SUM", []*T{v})}, {k("b"), e.aggrVal("SUM", []*T{w})}})
		})
		r.scenario("grouping set on reset", func(x *X) {
			a := x.newAggr("SUM", nil, "v")
			v, w := x.fltSym("v"), x.fltSym("w")
			x.holds("reset", a.where, x.isNil(x.m(a.t, a.v, "Reset", x.slice(e.iface(types.NewSlice(types.Typ[types.String]), x.strs("g"))))), "grouping cannot be set on reset")
			x.holds("a", a.where, x.isNil(a.add("row", nil, []*T{cv("a"), x.flt(v)})), "SUM refuses a row")
			x.holds("b", a.where, x.isNil(a.add("row", nil, []*T{cv("b"), x.flt(w)})), "SUM refuses a row")
			a.result("regrouped", []string{"g", "SUM(v)"}, [][]*T{{cv("a"), e.aggrVal("SUM", []*T{v})}, {cv("b"), e.aggrVal("SUM", []*T{w})}})
		})
		// every way of setting the grouping on reset, whatever it was before
		strT := types.Typ[types.String]
		for _, n := range aggrNames {
			for _, was := range [][]string{nil, {"g"}, {"g", "h"}} {
				for _, now := range [][]string{nil, {""}, {"k"}, {"k", "l"}, {"", "k"}, {"k", ""}} {
					for _, form := range []string{"list", "name"} {
						if form == "name" && len(now) != 1 {
							continue
						}
						n, was, now, form := n, was, now, form
						r.scenario(fmt.Sprintf("%s grouped by %q reset to %q as %s", n, was, now, form), func(x *X) {
							a := x.newAggr(n, was, "v")
							row := func(gs []string, v *T) []*T {
								var r []*T
								for _, g := range gs {
									r = append(r, cv(g))
								}
								return append(r, x.flt(v))
							}
							old := x.fltSym("old")
							x.holds("before", a.where, x.isNil(a.add("row", nil, row(was, old))), "%s refuses a row", n)
							opt := e.iface(types.NewSlice(strT), x.strs(now...))
							if form == "name" {
								opt = e.iface(strT, e.str(now[0]))
							}
							x.holds("reset", a.where, x.isNil(x.m(a.t, a.v, "Reset", x.slice(opt))), "grouping cannot be set on reset")
							var gs []string
							for _, g := range now {
								if g != "" {
									gs = append(gs, g)
								}
							}
							v, w := x.fltSym("v"), x.fltSym("w")
							x.holds("first", a.where, x.isNil(a.add("row", nil, row(gs, v))), "%s refuses a row after the reset", n)
							x.holds("second", a.where, x.isNil(a.add("slice", nil, row(gs, w))), "%s refuses a row after the reset", n)
							var want []*T
							for _, g := range gs {
								want = append(want, cv(g))
							}
							a.result("regrouped", append(append([]string{}, gs...), n+"(v)"), [][]*T{append(want, e.aggrVal(n, []*T{v, w}))})
						})
					}
				}
			}
			r.scenario(n+" reset with an unknown option", func(x *X) {
				a := x.newAggr(n, nil, "v")
				x.holds("refused", a.where, x.notNil(x.m(a.t, a.v, "Reset", x.slice(e.iface(types.Typ[types.Int], e.intc(1))))), "%s accepts an option it does not know on reset", n)
			})
		}
	})
}

// sortKeys orders the groups of the given indexes by their values.
func sortKeys(keys [][]any, order []int, desc bool) {
	cmp := func(a, b any) int {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return -1
		case b == nil:
			return 1
		}
		switch a := a.(type) {
		case int:
			return a - b.(int)
		case string:
			return strings.Compare(a, b.(string))
		}
		return 0
	}
	less := func(i, j int) bool {
		for c := range keys[i] {
			if d := cmp(keys[i][c], keys[j][c]); d != 0 {
				return d < 0
			}
		}
		return false
	}
	for i := range order {
		for j := i; j > 0; j-- {
			p, q := order[j-1], order[j]
			if !desc && less(q, p) || desc && less(p, q) {
				order[j-1], order[j] = q, p
			}
		}
	}
}
