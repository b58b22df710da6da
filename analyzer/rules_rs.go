package main

import (
	"fmt"
	"go/constant"
	"go/types"
)

const rsPkg = "sql/query/response/resultset"

// rsColumn is a plain column of a result set.
func (x *X) rsColumn(name, typ string) *T {
	return x.fn(rsPkg, "NewColumn", x.slice(x.fn(rsPkg, "WithColumnName", x.e.str(name)), x.fn(rsPkg, "WithColumnType", x.pkgConst(qryPkg, typ))))
}

// mapOfPairs is a map with constant keys.
func (x *X) mapOfPairs(keys []string, vs []*T) *T {
	m := x.newMap()
	for i, k := range keys {
		x.e.mapStore(x.st, m, x.e.str(k), vs[i])
	}
	return m
}

func (x *X) rsSchema(cols ...*T) *T {
	return x.fn(rsPkg, "NewSchema", x.slice(x.fn(rsPkg, "WithSchemaColumns", x.slice(cols...))))
}

// anyVals are arbitrary values v0, v1, ...
func (x *X) anyVals(prefix string, n int) []*T {
	var vs []*T
	for i := 0; i < n; i++ {
		t := types.Typ[types.String]
		vs = append(vs, x.e.iface(t, x.e.sym(fmt.Sprintf("%s%d", prefix, i), t)))
	}
	return vs
}

func (x *X) uint(s string) *T {
	return x.e.constant(constant.MakeFromLiteral(s, 5 /* token.INT */, 0), nil)
}

const maxUint = "18446744073709551615"

func (x *X) isErr(err *T, pkg, name string) *T {
	return x.e.lift2(err, x.global(pkg, name), x.e.errorsIs)
}

func init() {
	register("C26", func(r *Run) {
		e := r.e
		r.rule("evaluate every cursor history Row, (Next, Row)* on result sets of 0..4 rows for every offset and limit in 0..5 and at the top of the range: the rows given are exactly rows[offset : offset+limit] in order, Next tells whether there is one, and Row fails with ErrNoRows when there is none")
		nums := []string{"0", "1", "2", "3", "4", "5", "256", "65537", "4294967296", "4294967297", "9223372036854775808", "18446744073709551614", maxUint}
		rank := func(s string) int {
			if len(s) > 1 {
				return 1000
			}
			return int(s[0] - '0')
		}
		for n := 0; n <= 4; n++ {
			for _, off := range nums {
				for _, lim := range nums {
					n, off, lim := n, off, lim
					r.scenario(fmt.Sprintf("%d rows, offset %s, limit %s", n, off, lim), func(x *X) {
						col := x.rsColumn("a", "TextType")
						sch := x.rsSchema(col)
						vs := x.anyVals("v", n)
						var rows []*T
						for i := 0; i < n; i++ {
							rows = append(rows, x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs([]string{"a"}, vs[i:i+1])))))
						}
						rs := x.fn(rsPkg, "NewResultSet", x.slice(
							x.fn(rsPkg, "WithResultSetSchema", sch),
							x.fn(rsPkg, "WithResultSetRows", x.slice(rows...)),
							x.fn(rsPkg, "WithResultSetOffset", x.uint(off)),
							x.fn(rsPkg, "WithResultSetLimit", x.uint(lim)),
							x.fn(rsPkg, "WithResultSetRowsAffected", x.uint("7")),
						))
						t := x.typ(rsPkg, "ResultSet")
						rt := x.typ(rsPkg, "Row")
						where := x.pos(rsPkg, "NewResultSet")
						x.same("affected", where, x.m(t, rs, "RowsAffected"), x.uint("7"), "the number of affected rows")
						x.same("schema", where, x.m(t, rs, "Schema"), sch, "the schema")
						lo, hi := rank(off), n
						if lo > n {
							lo = n
						}
						if l := rank(lim); l > 0 && lo+l < hi {
							hi = lo + l
						}
						noRow := func(key string) {
							row := x.m(t, rs, "Row")
							x.holds(key, where, x.isErr(x.at(row, 1), errPkg, "ErrNoRows"), "Row gives a row where there is none (%s)", key)
						}
						noRow("before")
						for i := lo; i < hi; i++ {
							k := fmt.Sprintf("row %d", i-lo)
							x.same(k+" next", where, x.m(t, rs, "Next"), e.True, "Next reports row %d of the window [%d, %d)", i, lo, hi)
							for _, again := range []string{"", " again"} {
								row := x.m(t, rs, "Row")
								x.holds(k+again+" error", where, x.isNil(x.at(row, 1)), "row %d of the window [%d, %d) is refused", i, lo, hi)
								v := x.m(rt, x.at(row, 0), "ValueAt", e.intc(0))
								x.same(k+again, where, x.at(v, 0), vs[i], "row %d of the window [%d, %d)", i, lo, hi)
							}
						}
						for j := 0; j < 3; j++ {
							k := fmt.Sprintf("end %d", j)
							x.same(k, where, x.m(t, rs, "Next"), e.False, "Next reports a row past the window [%d, %d)", lo, hi)
							noRow(k + " row")
						}
					})
				}
			}
		}
		// the options in any order, rows that are empty, equal or the same
		for _, perm := range [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}} {
			for _, w := range [][2]int{{0, 0}, {1, 2}, {2, 1}, {4, 3}, {1, 9}} {
				for _, ctor := range []string{"NewResultSet", "NewResultSetFrom"} {
					for _, of := range []bool{false, true} {
						r.scenario(fmt.Sprintf("%s of five rows, offset %d, limit %d, options %v, maps %v", ctor, w[0], w[1], perm, of), func(x *X) {
							sch := x.rsSchema(x.rsColumn("a", "TextType"))
							vs := x.anyVals("v", 2)
							want := []*T{vs[0], e.Nil, vs[0], vs[1], e.Nil}
							full := func(v *T) *T { return x.mapOfPairs([]string{"a"}, []*T{v}) }
							first := full(vs[0])
							objs := []*T{first, x.newMap(), first, full(vs[1]), full(e.Nil)}
							rows := x.slice(objs...)
							var opt *T
							if of {
								opt = x.fn(rsPkg, "WithResultSetRowsOf", e.iface(types.NewSlice(types.NewMap(types.Typ[types.String], anyType)), rows))
							} else {
								var rs []*T
								for _, o := range objs {
									rs = append(rs, x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", o))))
								}
								opt = x.fn(rsPkg, "WithResultSetRows", x.slice(rs...))
							}
							opts := []*T{
								x.fn(rsPkg, "WithResultSetSchema", sch), opt,
								x.fn(rsPkg, "WithResultSetOffset", x.uint(fmt.Sprint(w[0]))),
								x.fn(rsPkg, "WithResultSetLimit", x.uint(fmt.Sprint(w[1]))),
							}
							var os []*T
							for _, i := range perm {
								os = append(os, opts[i])
							}
							rs := x.fn(rsPkg, ctor, x.slice(os...))
							where := x.pos(rsPkg, ctor)
							if ctor == "NewResultSetFrom" {
								x.holds("error", where, x.isNil(x.at(rs, 1)), "valid options are refused")
								rs = x.at(rs, 0)
							}
							lo, hi := w[0], 5
							if w[1] > 0 && lo+w[1] < hi {
								hi = lo + w[1]
							}
							var exp [][]*T
							for i := lo; i < hi; i++ {
								exp = append(exp, []*T{want[i]})
							}
							x.rsRows("window", where, rs, exp)
						})
					}
				}
			}
		}
	})

	register("C27", func(r *Run) {
		e := r.e
		r.rule("evaluate the accessors of rows built from objects and from value lists, with and without schema, for every index from -2 to past the end and for present and absent names: position and name give the value of the column, everything else is an error, and nothing panics")
		cols := []string{"b", "a", "c"}
		check := func(x *X, row *T, where string, names []string, want []*T) {
			rt := x.typ(rsPkg, "Row")
			// targets of a scan: text, which every value converts to
			target := func() (*T, *T) {
				p := e.newAlloc("to", types.Typ[types.String])
				e.store(x.st, p, e.str("before"))
				return e.iface(types.NewPointer(types.Typ[types.String]), p), p
			}
			vals := x.m(rt, row, "Values")
			x.same("values", where, vals, x.slice(want...), "the values of the row")
			for i := -2; i <= len(want)+1; i++ {
				v := x.m(rt, row, "ValueAt", e.intc(i))
				k := fmt.Sprintf("at %d", i)
				if i >= 0 && i < len(want) {
					x.holds(k+" error", where, x.isNil(x.at(v, 1)), "ValueAt(%d) of %d values is refused", i, len(want))
					x.same(k, where, x.at(v, 0), want[i], "ValueAt(%d)", i)
				} else {
					x.holds(k+" error", where, x.isErr(x.at(v, 1), errPkg, "ErrNotExist"), "ValueAt(%d) of %d values is not refused with ErrNotExist", i, len(want))
					x.same(k, where, x.at(v, 0), e.Nil, "ValueAt(%d)", i)
					to, _ := target()
					x.holds(k+" scan", where, x.isErr(x.m(rt, row, "ScanAt", e.intc(i), to), errPkg, "ErrNotExist"), "ScanAt(%d) of %d values is not refused with ErrNotExist", i, len(want))
				}
			}
			for i, n := range names {
				v := x.m(rt, row, "ValueBy", e.str(n))
				x.holds("by "+n+" error", where, x.isNil(x.at(v, 1)), "ValueBy(%s) is refused", n)
				x.same("by "+n, where, x.at(v, 0), want[i], "ValueBy(%s)", n)
			}
			for _, n := range []string{"", "z", "A", "a ", "0"} {
				v := x.m(rt, row, "ValueBy", e.str(n))
				x.holds("by "+n+" error", where, x.isErr(x.at(v, 1), errPkg, "ErrNotExist"), "ValueBy(%q) of an absent name is not refused with ErrNotExist", n)
				to, _ := target()
				x.holds("scan by "+n, where, x.isErr(x.m(rt, row, "ScanBy", e.str(n), to), errPkg, "ErrNotExist"), "ScanBy(%q) of an absent name is not refused with ErrNotExist", n)
			}
			text := func(v *T) *T {
				_, w := e.castTerm("String", v)
				return w
			}
			for i := range want {
				to, p := target()
				x.holds(fmt.Sprintf("scan at %d", i), where, x.isNil(x.m(rt, row, "ScanAt", e.intc(i), to)), "ScanAt(%d) of %d values is refused", i, len(want))
				x.same(fmt.Sprintf("scanned at %d", i), where, e.load(x.st, p), text(want[i]), "ScanAt(%d)", i)
			}
			for i, n := range names {
				to, p := target()
				x.holds("scan "+n, where, x.isNil(x.m(rt, row, "ScanBy", e.str(n), to)), "ScanBy(%s) is refused", n)
				x.same("scanned "+n, where, e.load(x.st, p), text(want[i]), "ScanBy(%s)", n)
			}
			for k := 0; k <= len(want)+1; k++ {
				var tos, ps []*T
				for i := 0; i < k; i++ {
					to, p := target()
					tos, ps = append(tos, to), append(ps, p)
				}
				err := x.m(rt, row, "Scan", x.slice(tos...))
				if k > len(want) {
					x.holds(fmt.Sprintf("scan %d", k), where, x.isErr(err, errPkg, "ErrNotExist"), "Scan of %d targets from %d values is not refused with ErrNotExist", k, len(want))
					continue
				}
				x.holds(fmt.Sprintf("scan %d", k), where, x.isNil(err), "Scan of %d targets from %d values is refused", k, len(want))
				for i := range tos {
					x.same(fmt.Sprintf("scan %d of %d", i, k), where, e.load(x.st, ps[i]), text(want[i]), "target %d of %d scanned", i, k)
				}
			}
			obj := x.m(rt, row, "Object")
			x.same("object", where, obj, x.mapOfPairs(names, want), "the row as an object")
		}
		for n := 0; n <= 3; n++ {
			n := n
			nc := append([]string{}, cols[:n]...)
			r.scenario(fmt.Sprintf("object of %d columns with schema", n), func(x *X) {
				var cs []*T
				for _, c := range nc {
					cs = append(cs, x.rsColumn(c, "TextType"))
				}
				vs := x.anyVals("v", n)
				row := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs(nc, vs)), x.fn(rsPkg, "WithRowSchema", x.rsSchema(cs...))))
				check(x, row, x.pos(rsPkg, "NewRow"), nc, vs)
			})
			r.scenario(fmt.Sprintf("values of %d columns with schema", n), func(x *X) {
				var cs []*T
				for _, c := range nc {
					cs = append(cs, x.rsColumn(c, "TextType"))
				}
				vs := x.anyVals("v", n)
				row := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowValues", x.slice(vs...)), x.fn(rsPkg, "WithRowSchema", x.rsSchema(cs...))))
				check(x, row, x.pos(rsPkg, "NewRow"), nc, vs)
			})
			r.scenario(fmt.Sprintf("object of %d columns without schema", n), func(x *X) {
				vs := x.anyVals("v", n)
				row := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs(nc, vs))))
				// without a schema the columns are in name order
				names, want := append([]string{}, nc...), append([]*T{}, vs...)
				for i := range names {
					for j := i + 1; j < len(names); j++ {
						if names[j] < names[i] {
							names[i], names[j] = names[j], names[i]
							want[i], want[j] = want[j], want[i]
						}
					}
				}
				check(x, row, x.pos(rsPkg, "NewRow"), names, want)
			})
			r.scenario(fmt.Sprintf("values of %d columns without schema", n), func(x *X) {
				vs := x.anyVals("v", n)
				row := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowValues", x.slice(vs...))))
				check(x, row, x.pos(rsPkg, "NewRow"), []string{"1", "2", "3"}[:n], vs)
			})
		}
		r.scenario("missing columns are NULL", func(x *X) {
			sch := x.rsSchema(x.rsColumn("b", "TextType"), x.rsColumn("a", "TextType"))
			vs := x.anyVals("v", 2)
			row := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs([]string{"a"}, vs[:1])), x.fn(rsPkg, "WithRowSchema", sch)))
			rt := x.typ(rsPkg, "Row")
			x.same("object", x.pos(rsPkg, "NewRow"), x.m(rt, row, "Values"), x.slice(e.Nil, vs[0]), "the values of an object without column b")
			row = x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowValues", x.slice(vs[1])), x.fn(rsPkg, "WithRowSchema", sch)))
			x.same("values", x.pos(rsPkg, "NewRow"), x.m(rt, row, "Object"), x.mapOfPairs([]string{"a", "b"}, []*T{e.Nil, vs[1]}), "the object of too few values")
		})
		long := []string{"b", "aa", "a", "c10", "c9", "B", "ab", "", "a b", "c1", "z", "_"}
		sorted := []string{"", "B", "_", "a", "a b", "aa", "ab", "b", "c1", "c10", "c9", "z"}
		r.scenario("twelve columns", func(x *X) {
			rt, where := x.typ(rsPkg, "Row"), x.pos(rsPkg, "NewRow")
			vs := x.anyVals("v", len(long))
			by := map[string]*T{}
			var cs []*T
			var nums []string
			for i, n := range long {
				by[n] = vs[i]
				cs = append(cs, x.rsColumn(n, "TextType"))
				nums = append(nums, fmt.Sprint(i+1))
			}
			var inOrder []*T
			for _, n := range sorted {
				inOrder = append(inOrder, by[n])
			}
			obj := func() *T { return x.fn(rsPkg, "WithRowObject", x.mapOfPairs(long, vs)) }
			row := x.fn(rsPkg, "NewRow", x.slice(obj()))
			x.same("name order", where, x.m(rt, row, "Values"), x.slice(inOrder...), "the values of an object without schema")
			row = x.fn(rsPkg, "NewRow", x.slice(obj(), x.fn(rsPkg, "WithRowSchema", x.rsSchema(cs...))))
			x.same("schema order", where, x.m(rt, row, "Values"), x.slice(vs...), "the values of an object with schema")
			row = x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowValues", x.slice(vs...))))
			x.same("numbered", where, x.m(rt, row, "Object"), x.mapOfPairs(nums, vs), "the object of values without schema")
			for i, n := range nums {
				x.same("number "+n, where, x.m(rt, row, "ValueBy", e.str(n)), e.tuple(vs[i], e.Nil), "the value of column %s", n)
			}
			row = x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowSchema", x.rsSchema(cs...)), x.fn(rsPkg, "WithRowValues", x.slice(vs...))))
			x.same("named", where, x.m(rt, row, "Object"), x.mapOfPairs(long, vs), "the object of values with schema")
			for i, n := range long {
				x.same("name "+n, where, x.m(rt, row, "ValueBy", e.str(n)), e.tuple(vs[i], e.Nil), "the value of column %q", n)
				x.same(fmt.Sprintf("position %d", i), where, x.m(rt, row, "ValueAt", e.intc(i)), e.tuple(vs[i], e.Nil), "the value at %d", i)
			}
		})
		r.scenario("too many values", func(x *X) {
			rt, where := x.typ(rsPkg, "Row"), x.pos(rsPkg, "NewRow")
			vs := x.anyVals("v", 3)
			row := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowValues", x.slice(vs...)), x.fn(rsPkg, "WithRowSchema", x.rsSchema(x.rsColumn("a", "TextType")))))
			x.same("object", where, x.m(rt, row, "Object"), x.mapOfPairs([]string{"a"}, vs[:1]), "the object of too many values")
			x.same("values", where, x.m(rt, row, "Values"), x.slice(vs...), "the values")
		})
		r.scenario("projection of near misses", func(x *X) {
			rt, where := x.typ(rsPkg, "Row"), x.pos(rsPkg, "NewRowFromObject")
			vs := x.anyVals("v", 6)
			proj := func(obj *T, names ...string) *T {
				var cs []*T
				for _, n := range names {
					cs = append(cs, x.rsColumn(n, "TextType"))
				}
				got := x.fn(rsPkg, "NewRowFromObject", x.rsSchema(cs...), obj)
				x.holds("error", where, x.isNil(x.at(got, 1)), "the projection fails")
				return x.at(got, 0)
			}
			obj := func() *T { return x.mapOfPairs([]string{"a", "AB", "abc", "ab ", "", "t.ab"}, vs) }
			x.same("missing", where, x.m(rt, proj(obj(), "ab"), "Values"), x.slice(e.Nil), "the column ab of an object without it")
			x.same("order", where, x.m(rt, proj(obj(), "abc", "ab", "a"), "Values"), x.slice(vs[2], e.Nil, vs[0]), "the columns abc, ab, a")
			x.same("none", where, x.m(rt, proj(obj()), "Object"), x.newMap(), "no columns")
			x.same("no values", where, x.m(rt, proj(obj()), "Values"), x.slice(), "no columns")
			x.same("twice", where, x.m(rt, proj(obj(), "a", "a"), "Values"), x.slice(vs[0], vs[0]), "one column twice")
			o := obj()
			p := proj(o, "a")
			e.mapStore(x.st, o, e.str("a"), vs[5])
			x.same("own", where, x.m(rt, p, "Values"), x.slice(vs[0]), "the column of a row whose object was changed later")
		})
		r.scenario("projection of a computed column the object has too", func(x *X) {
			rt, where := x.typ(rsPkg, "Row"), x.pos(rsPkg, "NewRowFromObject")
			fc := x.fn(rsPkg, "NewColumn", x.slice(x.fn(rsPkg, "WithColumnName", e.str("ABS(b)")), x.fn(rsPkg, "WithColumnFunction", x.fnCall("ABS", "b"))))
			vs := x.anyVals("v", 1)
			obj := func(b *T) *T { return x.mapOfPairs([]string{"b", "ABS(b)"}, []*T{b, vs[0]}) }
			got := x.fn(rsPkg, "NewRowFromObject", x.rsSchema(fc), obj(x.flt(e.floatc(-2))))
			x.holds("error", where, x.isNil(x.at(got, 1)), "the projection fails")
			x.same("computed", where, x.m(rt, x.at(got, 0), "Values"), x.slice(x.flt(e.floatc(2))), "the computed column")
			got = x.fn(rsPkg, "NewRowFromObject", x.rsSchema(fc), obj(e.iface(types.Typ[types.String], e.str("no number"))))
			x.holds("failed", where, x.notNil(x.at(got, 1)), "a function that fails is not reported")
			// an aggregate is not computed row by row: its value is the one the object has
			ac := x.fn(rsPkg, "NewColumn", x.slice(x.fn(rsPkg, "WithColumnName", e.str("SUM(b)")), x.fn(rsPkg, "WithColumnFunction", x.fnCall("SUM", "b"))))
			got = x.fn(rsPkg, "NewRowFromObject", x.rsSchema(ac), x.mapOfPairs([]string{"b", "SUM(b)"}, []*T{x.flt(e.floatc(1)), vs[0]}))
			x.holds("aggregate error", where, x.isNil(x.at(got, 1)), "the projection fails")
			x.same("aggregate", where, x.m(rt, x.at(got, 0), "Values"), x.slice(vs[0]), "the aggregated column")
		})
		r.scenario("conversions of a scan", func(x *X) {
			rt := x.typ(rsPkg, "Row")
			where := x.pos(rsPkg, "NewRow")
			str := func(v string) *T { return e.iface(types.Typ[types.String], e.str(v)) }
			row := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs([]string{"a", "b", "c"}, []*T{str("12"), str("no number"), str("2.5")}))))
			target := func(t types.Type) (*T, *T) {
				p := e.newAlloc("to", t)
				e.store(x.st, p, e.zero(t))
				return e.iface(types.NewPointer(t), p), p
			}
			n, np := target(types.Typ[types.Int])
			f, fp := target(types.Typ[types.Float64])
			bad, _ := target(types.Typ[types.Int])
			x.holds("int", where, x.isNil(x.m(rt, row, "ScanBy", e.str("a"), n)), "ScanBy refuses numeric text")
			x.same("int value", where, e.load(x.st, np), e.intc(12), "ScanBy of numeric text")
			x.holds("float", where, x.isNil(x.m(rt, row, "ScanAt", e.intc(2), f)), "ScanAt refuses numeric text")
			x.same("float value", where, e.load(x.st, fp), e.floatc(2.5), "ScanAt of numeric text")
			x.holds("bad by", where, x.notNil(x.m(rt, row, "ScanBy", e.str("b"), bad)), "ScanBy accepts a value it cannot convert")
			x.holds("bad at", where, x.notNil(x.m(rt, row, "ScanAt", e.intc(1), bad)), "ScanAt accepts a value it cannot convert")
			x.holds("bad scan", where, x.notNil(x.m(rt, row, "Scan", x.slice(n, bad, f))), "Scan accepts a value it cannot convert")
		})
		r.scenario("empty row", func(x *X) {
			check(x, x.fn(rsPkg, "NewRow", e.Nil), x.pos(rsPkg, "NewRow"), nil, nil)
		})
		r.scenario("projection", func(x *X) {
			// a row of a result set shows the columns of the schema, computed ones included
			fx := x.fn(fnPkg, "NewFunction", x.slice(x.fn(fnPkg, "WithFunctionName", e.str("ABS")), x.fn(fnPkg, "WithFunctionArguments", x.fn(fnPkg, "NewArgumentStrings", x.strs("b")))))
			fc := x.fn(rsPkg, "NewColumn", x.slice(x.fn(rsPkg, "WithColumnName", e.str("ABS(b)")), x.fn(rsPkg, "WithColumnFunction", fx)))
			sch := x.rsSchema(x.rsColumn("c", "TextType"), fc, x.rsColumn("a", "TextType"))
			vs := x.anyVals("v", 2)
			obj := x.mapOfPairs([]string{"a", "b", "x"}, []*T{vs[0], e.iface(types.Typ[types.Float64], e.constant(constant.MakeFloat64(-2.5), nil)), vs[1]})
			got := x.fn(rsPkg, "NewRowFromObject", sch, obj)
			where := x.pos(rsPkg, "NewRowFromObject")
			x.holds("error", where, x.isNil(x.at(got, 1)), "the projection fails")
			rt := x.typ(rsPkg, "Row")
			x.same("values", where, x.m(rt, x.at(got, 0), "Values"), x.slice(e.Nil, e.iface(types.Typ[types.Float64], e.constant(constant.MakeFloat64(2.5), nil)), vs[0]), "the values of the projected row")
			for i, n := range []string{"c", "ABS(b)", "a"} {
				by := x.m(rt, x.at(got, 0), "ValueBy", e.str(n))
				x.holds("by "+n+" error", where, x.isNil(x.at(by, 1)), "ValueBy(%s) of the projected row is refused", n)
				x.same("by "+n, where, x.at(by, 0), []*T{e.Nil, e.iface(types.Typ[types.Float64], e.constant(constant.MakeFloat64(2.5), nil)), vs[0]}[i], "ValueBy(%s) of the projected row", n)
			}
			for _, n := range []string{"x", "b"} {
				x.holds("not "+n, where, x.notNil(x.at(x.m(rt, x.at(got, 0), "ValueBy", e.str(n)), 1)), "the projected row has the column %s, which is not in its schema", n)
			}
			bad := x.mapOfPairs([]string{"a", "b"}, []*T{vs[0], e.iface(types.Typ[types.String], e.str("no number"))})
			got = x.fn(rsPkg, "NewRowFromObject", sch, bad)
			x.holds("bad argument", where, x.notNil(x.at(got, 1)), "a function that fails is not reported")
		})
	})
}

// tblSchema is a table schema of columns with data types.
func (x *X) tblSchema(table string, cols ...[2]string) *T {
	var cs []*T
	for _, c := range cols {
		cs = append(cs, x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", x.e.str(c[0])), x.fn(qryPkg, "WithColumnData", x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, c[1]), x.e.intc(0))))))
	}
	return x.fn(qryPkg, "NewSchemaWith", x.e.str(table), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.fn(qryPkg, "NewColumnsWith", x.slice(cs...)))))
}

// fnCall is a function selector.
func (x *X) fnCall(name string, args ...string) *T {
	return x.fn(fnPkg, "NewFunction", x.slice(x.fn(fnPkg, "WithFunctionName", x.e.str(name)), x.fn(fnPkg, "WithFunctionArguments", x.fn(fnPkg, "NewArgumentStrings", x.strs(args...)))))
}

func init() {
	register("C28", func(r *Run) {
		e := r.e
		r.rule("evaluate the constructors of result-set schemas and result sets on valid and invalid options: what was given is what the accessors return, in the order given, and an option that cannot be applied is an error, not an incomplete schema")
		st, ct := types.Type(nil), types.Type(nil)
		r.scenario("types", func(x *X) { st, ct = x.typ(rsPkg, "Schema"), x.typ(rsPkg, "Column") })
		if st == nil || ct == nil {
			return
		}
		for n := 0; n <= 3; n++ {
			n := n
			r.scenario(fmt.Sprintf("schema of %d columns", n), func(x *X) {
				names := []string{"b", "a", "c"}[:n]
				types_ := []string{"IntType", "TextType", "BooleanType"}
				var cs []*T
				for i, c := range names {
					cs = append(cs, x.rsColumn(c, types_[i]))
				}
				for _, ctor := range []string{"NewSchema", "NewSchemaFrom"} {
					v := x.fn(rsPkg, ctor, x.slice(x.fn(rsPkg, "WithSchemaDatabaseName", e.str("db")), x.fn(rsPkg, "WithSchemaTableName", e.str("tbl")), x.fn(rsPkg, "WithSchemaColumns", x.slice(cs...))))
					where := x.pos(rsPkg, ctor)
					if ctor == "NewSchemaFrom" {
						x.holds(ctor+" error", where, x.isNil(x.at(v, 1)), "valid options are refused")
						v = x.at(v, 0)
					}
					x.same(ctor+" database", where, x.m(st, v, "DatabaseName"), e.str("db"), "the database name")
					x.same(ctor+" table", where, x.m(st, v, "TableName"), e.str("tbl"), "the table name")
					x.same(ctor+" columns", where, x.m(st, v, "Columns"), x.slice(cs...), "the columns")
					sel := x.m(st, v, "Selectors")
					if lc := x.cases(sel); len(lc) == 1 && r.expectN(x, ctor+" selectors", where, len(lc[0].vs), n, "selectors") {
						for i, s := range lc[0].vs {
							x.same(fmt.Sprintf("%s selector %d", ctor, i), where, x.m(ct, s, "Name"), e.str(names[i]), "selector %d", i)
						}
					}
					for i, c := range names {
						l := x.m(st, v, "LookupColumn", e.str(c))
						x.holds(ctor+" lookup "+c+" error", where, x.isNil(x.at(l, 1)), "the column %s is not found", c)
						x.same(ctor+" lookup "+c, where, x.at(l, 0), cs[i], "the column found for %s", c)
						x.same(ctor+" type "+c, where, x.m(ct, cs[i], "DataType"), x.pkgConst(qryPkg, types_[i]), "the data type of column %s", c)
					}
					for _, c := range []string{"", "z", "A", "ab", "*"} {
						l := x.m(st, v, "LookupColumn", e.str(c))
						x.holds(ctor+" no column "+c, where, x.isErr(x.at(l, 1), qryPkg, "ErrNotFound"), "the lookup of the absent column %q does not fail with ErrNotFound", c)
					}
				}
			})
		}
		r.scenario("schema of selectors", func(x *X) {
			ts := x.tblSchema("t", [2]string{"a", "TextType"}, [2]string{"b", "IntType"})
			where := x.pos(rsPkg, "WithSchemaSelectors")
			mk := func(sels ...*T) *T {
				return x.fn(rsPkg, "NewSchemaFrom", x.slice(x.fn(rsPkg, "WithSchemaTableSchema", ts), x.fn(rsPkg, "WithSchemaSelectors", x.fn(qryPkg, "NewSelectorsWith", x.slice(sels...)))))
			}
			col := func(n string) *T { return x.fn(qryPkg, "NewColumnWithName", e.str(n)) }
			v := mk(col("b"), x.fnCall("SUM", "b"), col("a"), x.fnCall("ABS", "b"))
			x.holds("error", where, x.isNil(x.at(v, 1)), "valid selectors are refused")
			x.same("table", where, x.m(st, x.at(v, 0), "TableName"), e.str("t"), "the table name")
			if lc := x.cases(x.m(st, x.at(v, 0), "Columns")); len(lc) == 1 && r.expectN(x, "columns", where, len(lc[0].vs), 4, "columns") {
				wantN := []string{"b", "SUM(b)", "a", "ABS(b)"}
				wantT := []string{"IntType", "FloatType", "TextType", "FloatType"}
				for i, c := range lc[0].vs {
					x.same(fmt.Sprintf("name %d", i), where, x.m(ct, c, "Name"), e.str(wantN[i]), "the name of column %d", i)
					x.same(fmt.Sprintf("type %d", i), where, x.m(ct, c, "DataType"), x.pkgConst(qryPkg, wantT[i]), "the data type of column %d", i)
					_, isF := x.at(x.m(ct, c, "Function"), 1), i%2 == 1
					x.same(fmt.Sprintf("function %d", i), where, x.at(x.m(ct, c, "Function"), 1), e.boolc(isF), "column %d is a function", i)
					x.same(fmt.Sprintf("is function %d", i), where, x.m(ct, c, "IsFunction"), e.boolc(isF), "column %d says it is a function", i)
				}
			}
			v = mk(col("a"), col("nosuch"))
			x.holds("unknown column", where, x.notNil(x.at(v, 1)), "a selector of an unknown column is accepted")
			v = mk(col("a"), x.fnCall("NOSUCH", "b"))
			x.holds("unknown function", where, x.notNil(x.at(v, 1)), "a selector of an unknown function is accepted")
			v = x.fn(rsPkg, "NewSchemaFrom", x.slice(x.fn(rsPkg, "WithSchemaSelectors", x.fn(qryPkg, "NewSelectorsWith", x.slice(col("a"))))))
			x.holds("no table", where, x.notNil(x.at(v, 1)), "selectors without a table schema are accepted")
		})
		r.scenario("schema of selectors given twice and out of order", func(x *X) {
			ts := x.tblSchema("t", [2]string{"a", "TextType"}, [2]string{"b", "IntType"})
			where := x.pos(rsPkg, "WithSchemaSelectors")
			col := func(n string) *T { return x.fn(qryPkg, "NewColumnWithName", e.str(n)) }
			tso := func() *T { return x.fn(rsPkg, "WithSchemaTableSchema", ts) }
			so := func(sels ...*T) *T {
				return x.fn(rsPkg, "WithSchemaSelectors", x.fn(qryPkg, "NewSelectorsWith", x.slice(sels...)))
			}
			mk := func(os ...*T) *T { return x.fn(rsPkg, "NewSchemaFrom", x.slice(os...)) }
			for i, l := range [][]string{{"a", "a"}, {"b", "a", "a", "b"}, {"a"}, {}} {
				var ss []*T
				for _, n := range l {
					ss = append(ss, col(n))
				}
				v := mk(tso(), so(ss...))
				x.holds(fmt.Sprintf("error %d", i), where, x.isNil(x.at(v, 1)), "valid selectors are refused")
				if lc := x.cases(x.m(st, x.at(v, 0), "Columns")); len(lc) == 1 && r.expectN(x, fmt.Sprintf("columns %d", i), where, len(lc[0].vs), len(l), "columns") {
					for j, c := range lc[0].vs {
						x.same(fmt.Sprintf("name %d %d", i, j), where, x.m(ct, c, "Name"), e.str(l[j]), "the name of column %d of %v", j, l)
					}
				}
			}
			v := mk(tso(), so(x.fnCall("SUM", "a"), x.fnCall("SUM", "a"), x.fnCall("SUM", "b")))
			x.holds("functions error", where, x.isNil(x.at(v, 1)), "valid selectors are refused")
			if lc := x.cases(x.m(st, x.at(v, 0), "Columns")); len(lc) == 1 && r.expectN(x, "functions", where, len(lc[0].vs), 3, "columns") {
				for j, n := range []string{"SUM(a)", "SUM(a)", "SUM(b)"} {
					x.same(fmt.Sprintf("function %d", j), where, x.m(ct, lc[0].vs[j], "Name"), e.str(n), "the name of column %d", j)
				}
			}
			for _, n := range []string{"*", "", "ab", "t.a", "a "} {
				x.holds("unknown "+n, where, x.notNil(x.at(mk(tso(), so(col("a"), col(n))), 1)), "a selector of the unknown column %q is accepted", n)
				x.holds("unknown first "+n, where, x.notNil(x.at(mk(tso(), so(col(n), col("a")), x.fn(rsPkg, "WithSchemaDatabaseName", e.str("db"))), 1)), "a selector of the unknown column %q is accepted", n)
			}
			x.holds("selectors first", where, x.notNil(x.at(mk(so(col("a")), tso()), 1)), "selectors before the table schema are accepted")
			x.holds("later good ones", where, x.notNil(x.at(mk(tso(), so(col("z")), so(col("a"))), 1)), "an option that cannot be applied is no error if another one follows")
			v = mk(x.fn(rsPkg, "WithSchemaTableName", e.str("other")), tso(), so(col("a")))
			x.same("table after name", where, x.m(st, x.at(v, 0), "TableName"), e.str("t"), "the table name of the table schema")
			v = mk(tso(), so(col("a")), x.fn(rsPkg, "WithSchemaTableName", e.str("other")))
			x.same("name after table", where, x.m(st, x.at(v, 0), "TableName"), e.str("other"), "the table name given last")
			v = mk(x.fn(rsPkg, "WithSchemaDatabaseName", e.str("db")))
			x.same("no table", where, x.m(st, x.at(v, 0), "TableName"), e.str(""), "the table name of a schema without table")
			x.same("only database", where, x.m(st, x.at(v, 0), "DatabaseName"), e.str("db"), "the database name")
			v = mk(x.fn(rsPkg, "WithSchemaTableName", e.str("t")))
			x.same("no database", where, x.m(st, x.at(v, 0), "DatabaseName"), e.str(""), "the database name of a schema without database")
			x.same("only table", where, x.m(st, x.at(v, 0), "TableName"), e.str("t"), "the table name")
			// columns of one name: the first is found
			c1, c2 := x.rsColumn("a", "IntType"), x.rsColumn("a", "TextType")
			x.same("first", where, x.m(st, x.rsSchema(c1, c2), "LookupColumn", e.str("a")), e.tuple(c1, e.Nil), "the first column a")
			x.same("both", where, x.m(st, x.rsSchema(c1, c2), "Columns"), x.slice(c1, c2), "the columns")
		})
		r.scenario("column options given twice", func(x *X) {
			where := x.pos(rsPkg, "NewColumn")
			cn := func(n string) *T { return x.fn(rsPkg, "WithColumnConstraint", x.pkgConst(qryPkg, n)) }
			ty := func(n string) *T { return x.fn(rsPkg, "WithColumnType", x.pkgConst(qryPkg, n)) }
			for _, a := range []string{"NotNullConstraint", "UniqueConstraint", "PrimaryKeyConstraint"} {
				for _, b := range []string{"NotNullConstraint", "UniqueConstraint", "PrimaryKeyConstraint"} {
					c := x.fn(rsPkg, "NewColumn", x.slice(cn(a), ty("IntType"), cn(b), ty("TextType"), x.fn(rsPkg, "WithColumnName", e.str("x")), x.fn(rsPkg, "WithColumnName", e.str("k"))))
					x.same("constraint "+a+b, where, x.m(ct, c, "Constraint"), x.pkgConst(qryPkg, b), "the constraint given last")
					x.same("type "+a+b, where, x.m(ct, c, "DataType"), x.pkgConst(qryPkg, "TextType"), "the type given last")
					x.same("name "+a+b, where, x.m(ct, c, "Name"), e.str("k"), "the name given last")
				}
			}
			at := x.typ(fnPkg, "Arguments")
			args := []string{"a", "b", "c", "d", "e", "f"}
			fc := x.fn(rsPkg, "NewColumn", x.slice(x.fn(rsPkg, "WithColumnFunction", x.fnCall("ROUND", args...))))
			x.same("arguments", where, x.m(at, x.m(ct, fc, "Arguments"), "Names"), x.strs(args...), "the arguments of a function column")
		})
		r.scenario("schema of a row object", func(x *X) {
			where := x.pos(rsPkg, "WithSchemaRowObject")
			obj := x.mapOfPairs([]string{"b", "c", "a"}, []*T{e.iface(types.Typ[types.Int64], e.intc(1)), e.iface(types.Typ[types.Bool], e.True), e.iface(types.Typ[types.String], e.str("x"))})
			v := x.fn(rsPkg, "NewSchemaFrom", x.slice(x.fn(rsPkg, "WithSchemaRowObject", obj)))
			x.holds("error", where, x.isNil(x.at(v, 1)), "a valid object is refused")
			if lc := x.cases(x.m(st, x.at(v, 0), "Columns")); len(lc) == 1 && r.expectN(x, "columns", where, len(lc[0].vs), 3, "columns") {
				for i, w := range [][2]string{{"a", "VarCharType"}, {"b", "BigIntType"}, {"c", "BooleanType"}} {
					x.same(fmt.Sprintf("name %d", i), where, x.m(ct, lc[0].vs[i], "Name"), e.str(w[0]), "column %d of an object, in name order", i)
					x.same(fmt.Sprintf("type %d", i), where, x.m(ct, lc[0].vs[i], "DataType"), x.pkgConst(qryPkg, w[1]), "the data type of column %d of an object", i)
				}
			}
			bad := x.mapOfPairs([]string{"a"}, []*T{e.iface(types.Typ[types.Complex128], e.sym("c", types.Typ[types.Complex128]))})
			v = x.fn(rsPkg, "NewSchemaFrom", x.slice(x.fn(rsPkg, "WithSchemaRowObject", bad)))
			x.holds("bad type", where, x.notNil(x.at(v, 1)), "a value without data type is accepted")
		})
		r.scenario("columns", func(x *X) {
			where := x.pos(rsPkg, "NewColumnFrom")
			d := x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, "BigIntType"), e.intc(0))
			qc := x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str("a")), x.fn(qryPkg, "WithColumnData", d)))
			v := x.fn(rsPkg, "NewColumnFrom", qc)
			x.holds("error", where, x.isNil(x.at(v, 1)), "a column is refused")
			c := x.at(v, 0)
			x.same("name", where, x.m(ct, c, "Name"), e.str("a"), "the name of the column")
			x.same("type", where, x.m(ct, c, "DataType"), x.pkgConst(qryPkg, "BigIntType"), "the data type of the column")
			x.same("definition", where, x.m(ct, c, "DefinitionString"), e.str("a BIGINT"), "the definition of the column")
			x.same("asterisk", where, x.m(ct, c, "IsAsterisk"), e.False, "a named column is no asterisk")
			x.same("is function", where, x.m(ct, c, "IsFunction"), e.False, "a named column is no function")
			x.same("star", where, x.m(ct, x.rsColumn("*", "TextType"), "IsAsterisk"), e.True, "the column * is an asterisk")
			at := x.typ(fnPkg, "Arguments")
			x.same("no arguments", where, x.m(at, x.m(ct, c, "Arguments"), "Names"), x.slice(), "the arguments of a plain column")
			fx := x.fnCall("ROUND", "b", "a")
			fc := x.fn(rsPkg, "NewColumn", x.slice(x.fn(rsPkg, "WithColumnName", e.str("ROUND(b, a)")), x.fn(rsPkg, "WithColumnFunction", fx)))
			x.same("arguments", where, x.m(at, x.m(ct, fc, "Arguments"), "Names"), x.strs("b", "a"), "the arguments of a function column")
			cfx := x.m(ct, fc, "Function")
			x.same("function", where, x.wrap(x.at(cfx, 0)), x.wrap(fx), "the function of a function column")
			x.same("text", where, x.m(ct, c, "String"), e.str("a"), "the text of a column")
			// columns of a table
			cd := x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, "IntType"), e.intc(0))
			nn := x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str("n")), x.fn(qryPkg, "WithColumnData", cd)))
			if lc := x.cases(x.fn(rsPkg, "NewColumnsFrom", x.fn(qryPkg, "NewColumnsWith", x.slice(nn, qc, nn)))); len(lc) == 1 && r.expectN(x, "columns from", where, len(lc[0].vs), 3, "columns") {
				for i, w := range []string{"n", "a", "n"} {
					x.same(fmt.Sprintf("columns from %d", i), where, x.m(ct, lc[0].vs[i], "Name"), e.str(w), "column %d", i)
				}
			}
			k := x.fn(rsPkg, "NewColumn", x.slice(x.fn(rsPkg, "WithColumnName", e.str("k")), x.fn(rsPkg, "WithColumnType", x.pkgConst(qryPkg, "IntType")), x.fn(rsPkg, "WithColumnConstraint", x.pkgConst(qryPkg, "NotNullConstraint"))))
			x.same("constraint", where, x.m(ct, k, "Constraint"), x.pkgConst(qryPkg, "NotNullConstraint"), "the constraint of the column")
			x.same("constraint definition", where, x.m(ct, k, "DefinitionString"), e.str("k INT NOT NULL"), "the definition of the column")
		})
		r.scenario("result set options", func(x *X) {
			where := x.pos(rsPkg, "NewResultSetFrom")
			sch := x.rsSchema(x.rsColumn("a", "TextType"))
			v := x.fn(rsPkg, "NewResultSetFrom", x.slice(x.fn(rsPkg, "WithResultSetSchema", sch), x.fn(rsPkg, "WithResultSetRowsOf", e.iface(types.Typ[types.String], e.str("rows")))))
			x.holds("bad rows", where, x.notNil(x.at(v, 1)), "rows of an unsupported type are accepted")
			vs := x.anyVals("v", 2)
			mt := types.NewSlice(types.NewMap(types.Typ[types.String], anyType))
			rows := x.slice(x.mapOfPairs([]string{"a"}, vs[:1]), x.mapOfPairs([]string{"a"}, vs[1:]))
			v = x.fn(rsPkg, "NewResultSetFrom", x.slice(x.fn(rsPkg, "WithResultSetSchema", sch), x.fn(rsPkg, "WithResultSetRowsOf", e.iface(mt, rows))))
			x.holds("map rows", where, x.isNil(x.at(v, 1)), "rows given as maps are refused")
			x.rsRows("map rows", where, x.at(v, 0), [][]*T{{vs[0]}, {vs[1]}})
			rowT := types.NewSlice(x.typ(rsPkg, "Row"))
			mk := func(v *T) *T {
				return x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs([]string{"a"}, []*T{v}))))
			}
			v = x.fn(rsPkg, "NewResultSetFrom", x.slice(x.fn(rsPkg, "WithResultSetSchema", sch), x.fn(rsPkg, "WithResultSetRowsOf", e.iface(rowT, x.slice(mk(vs[1]), mk(vs[0]))))))
			x.holds("given rows", where, x.isNil(x.at(v, 1)), "rows are refused")
			x.rsRows("given rows", where, x.at(v, 0), [][]*T{{vs[1]}, {vs[0]}})
			mr := x.fn(rsPkg, "NewRowsFromMapRows", rows)
			x.holds("rows from maps", where, x.isNil(x.at(mr, 1)), "rows given as maps are refused")
			v = x.fn(rsPkg, "NewResultSetFrom", x.slice(x.fn(rsPkg, "WithResultSetSchema", sch), x.fn(rsPkg, "WithResultSetRows", x.at(mr, 0))))
			x.rsRows("rows from maps", where, x.at(v, 0), [][]*T{{vs[0]}, {vs[1]}})
		})
	})

	register("C20", func(r *Run) {
		e := r.e
		r.rule("evaluate NewAggregatedResultSetFrom on result sets of up to four rows: with an aggregate selector it yields one row per distinct group value (or one row) with the aggregates of exactly these rows under the names of the selectors; without one, the source; missing parts, unknown columns and failing rows are errors")
		opt := func(x *X, ts, sels, src, grp *T) *T {
			var os []*T
			if ts != nil {
				os = append(os, x.fn(rsPkg, "WithAggregatedResultSetTableSchema", ts))
			}
			if sels != nil {
				os = append(os, x.fn(rsPkg, "WithAggregatedResultSetSelectors", sels))
			}
			if src != nil {
				os = append(os, x.fn(rsPkg, "WithAggregatedResultSetSource", src))
			}
			if grp != nil {
				os = append(os, x.fn(rsPkg, "WithAggregatedResultSetGroupBy", grp))
			}
			return x.fn(rsPkg, "NewAggregatedResultSetFrom", x.slice(os...))
		}
		table := func(x *X) *T { return x.tblSchema("t", [2]string{"a", "TextType"}, [2]string{"b", "DoubleType"}) }
		source := func(x *X, rows [][]*T) *T {
			sch := x.rsSchema(x.rsColumn("a", "TextType"), x.rsColumn("b", "DoubleType"))
			var rs []*T
			for _, row := range rows {
				rs = append(rs, x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs([]string{"a", "b"}, row)), x.fn(rsPkg, "WithRowSchema", sch))))
			}
			return x.fn(rsPkg, "NewResultSet", x.slice(x.fn(rsPkg, "WithResultSetSchema", sch), x.fn(rsPkg, "WithResultSetRows", x.slice(rs...))))
		}
		sel := func(x *X, ss ...*T) *T { return x.fn(qryPkg, "NewSelectorsWith", x.slice(ss...)) }
		col := func(x *X, n string) *T { return x.fn(qryPkg, "NewColumnWithName", e.str(n)) }
		s := func(v string) *T { return e.iface(types.Typ[types.String], e.str(v)) }
		group := func(x *X) *T { return x.fn(qryPkg, "NewGroupByWith", e.str("a")) }
		keys := []string{"x", "y", "x", "y"}
		for n := 1; n <= 4; n++ {
			n := n
			r.scenario(fmt.Sprintf("grouped, %d rows", n), func(x *X) {
				var rows [][]*T
				var gs []string
				sum := map[string]*T{}
				cnt := map[string]int{}
				for i := 0; i < n; i++ {
					v := x.fltSym(fmt.Sprintf("b%d", i))
					k := keys[i]
					rows = append(rows, []*T{s(k), x.flt(v)})
					if sum[k] == nil {
						gs = append(gs, k)
						sum[k] = v
					} else {
						sum[k] = e.bin("+", sum[k], v)
					}
					cnt[k]++
				}
				where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
				got := opt(x, table(x), sel(x, col(x, "a"), x.fnCall("SUM", "b"), x.fnCall("COUNT", "b")), source(x, rows), group(x))
				x.holds("error", where, x.isNil(x.at(got, 1)), "a valid aggregation fails")
				var want [][]*T
				for _, g := range gs {
					want = append(want, []*T{s(g), x.flt(sum[g]), x.flt(e.intc(cnt[g]))})
				}
				x.rsRows("rows", where, x.at(got, 0), want)
				x.rsCols("columns", where, x.at(got, 0), "a", "SUM(b)", "COUNT(b)")
			})
			r.scenario(fmt.Sprintf("ungrouped, %d rows", n), func(x *X) {
				var rows [][]*T
				var sum *T
				for i := 0; i < n; i++ {
					v := x.fltSym(fmt.Sprintf("b%d", i))
					rows = append(rows, []*T{s(keys[i]), x.flt(v)})
					if sum == nil {
						sum = v
					} else {
						sum = e.bin("+", sum, v)
					}
				}
				where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
				got := opt(x, table(x), sel(x, x.fnCall("COUNT", "*"), x.fnCall("SUM", "b")), source(x, rows), nil)
				x.holds("error", where, x.isNil(x.at(got, 1)), "a valid aggregation fails")
				x.rsRows("rows", where, x.at(got, 0), [][]*T{{x.flt(e.intc(n)), x.flt(sum)}})
				x.rsCols("columns", where, x.at(got, 0), "COUNT(*)", "SUM(b)")
			})
		}
		r.scenario("only aggregates by group", func(x *X) {
			where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
			v := []*T{x.fltSym("b0"), x.fltSym("b1"), x.fltSym("b2")}
			rows := [][]*T{{s("x"), x.flt(v[0])}, {s("y"), x.flt(v[1])}, {s("x"), x.flt(v[2])}}
			for _, n := range aggrNames {
				got := opt(x, table(x), sel(x, x.fnCall(n, "b")), source(x, rows), group(x))
				x.holds(n+" error", where, x.isNil(x.at(got, 1)), "a valid aggregation fails")
				x.rsCols(n+" columns", where, x.at(got, 0), n+"(b)")
				x.rsRows(n+" rows", where, x.at(got, 0), [][]*T{{e.aggrVal(n, []*T{v[0], v[2]})}, {e.aggrVal(n, []*T{v[1]})}})
				got = opt(x, table(x), sel(x, x.fnCall(n, "b"), col(x, "a")), source(x, rows), group(x))
				x.holds(n+" reversed error", where, x.isNil(x.at(got, 1)), "a valid aggregation fails")
				x.rsCols(n+" reversed columns", where, x.at(got, 0), n+"(b)", "a")
				x.rsRows(n+" reversed rows", where, x.at(got, 0), [][]*T{{e.aggrVal(n, []*T{v[0], v[2]}), s("x")}, {e.aggrVal(n, []*T{v[1]}), s("y")}})
				got = opt(x, table(x), sel(x, x.fnCall(n, "b")), source(x, rows), nil)
				x.rsRows(n+" ungrouped rows", where, x.at(got, 0), [][]*T{{e.aggrVal(n, v)}})
			}
		})
		r.scenario("NULL groups", func(x *X) {
			where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
			v := []*T{x.fltSym("b0"), x.fltSym("b1"), x.fltSym("b2")}
			rows := [][]*T{{e.Nil, x.flt(v[0])}, {s(""), x.flt(v[1])}, {e.Nil, x.flt(v[2])}}
			got := opt(x, table(x), sel(x, col(x, "a"), x.fnCall("SUM", "b")), source(x, rows), group(x))
			x.holds("error", where, x.isNil(x.at(got, 1)), "a valid aggregation fails")
			x.rsRows("rows", where, x.at(got, 0), [][]*T{{e.Nil, e.aggrVal("SUM", []*T{v[0], v[2]})}, {s(""), e.aggrVal("SUM", []*T{v[1]})}})
			bad := [][]*T{{s("x"), x.flt(v[0])}, {e.Nil, s("no number")}, {s("x"), x.flt(v[1])}}
			for i, g := range []*T{nil, group(x)} {
				x.holds(fmt.Sprintf("value %d", i), where, x.notNil(x.at(opt(x, table(x), sel(x, x.fnCall("SUM", "b")), source(x, bad), g), 1)), "a row that cannot be aggregated is accepted")
			}
			x.holds("group", where, x.notNil(x.at(opt(x, table(x), sel(x, x.fnCall("SUM", "b")), source(x, rows), x.fn(qryPkg, "NewGroupByWith", e.str("nosuch"))), 1)), "an unknown grouping column is accepted")
		})
		r.scenario("the rows of a source", func(x *X) {
			where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
			sch := x.rsSchema(x.rsColumn("a", "TextType"), x.rsColumn("b", "DoubleType"))
			v := []*T{x.fltSym("b0"), x.fltSym("b1"), x.fltSym("b2"), x.fltSym("b3")}
			mk := func(off, lim string) *T {
				var rs []*T
				for _, f := range v {
					rs = append(rs, x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs([]string{"a", "b"}, []*T{s("x"), x.flt(f)})))))
				}
				return x.fn(rsPkg, "NewResultSet", x.slice(x.fn(rsPkg, "WithResultSetSchema", sch), x.fn(rsPkg, "WithResultSetRows", x.slice(rs...)), x.fn(rsPkg, "WithResultSetOffset", x.uint(off)), x.fn(rsPkg, "WithResultSetLimit", x.uint(lim))))
			}
			got := opt(x, table(x), sel(x, x.fnCall("SUM", "b"), x.fnCall("COUNT", "*")), mk("1", "2"), nil)
			x.rsRows("window", where, x.at(got, 0), [][]*T{{e.aggrVal("SUM", v[1:3]), x.flt(e.intc(2))}})
			src := mk("0", "0")
			x.m(x.typ(rsPkg, "ResultSet"), src, "Next")
			got = opt(x, table(x), sel(x, x.fnCall("SUM", "b"), x.fnCall("COUNT", "*")), src, nil)
			x.rsRows("the rest", where, x.at(got, 0), [][]*T{{e.aggrVal("SUM", v[1:]), x.flt(e.intc(3))}})
			// rows without columns are rows
			empty := x.fn(rsPkg, "NewResultSet", x.slice(x.fn(rsPkg, "WithResultSetSchema", x.rsSchema()), x.fn(rsPkg, "WithResultSetRowsOf", e.iface(types.NewSlice(types.NewMap(types.Typ[types.String], anyType)), x.slice(x.newMap(), x.newMap(), x.newMap())))))
			got = opt(x, table(x), sel(x, x.fnCall("COUNT", "*")), empty, nil)
			x.rsRows("empty rows", where, x.at(got, 0), [][]*T{{x.flt(e.intc(3))}})
		})
		r.scenario("no selector", func(x *X) {
			src := source(x, [][]*T{{s("x"), x.flt(x.fltSym("b0"))}})
			where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
			for i, g := range []*T{nil, group(x)} {
				for j, l := range []*T{sel(x), sel(x, x.fnCall("ABS", "b")), sel(x, col(x, "*"))} {
					got := opt(x, table(x), l, src, g)
					x.holds(fmt.Sprintf("error %d %d", i, j), where, x.isNil(x.at(got, 1)), "a list without aggregates fails")
					x.same(fmt.Sprintf("source %d %d", i, j), where, x.at(got, 0), src, "without aggregates the source is returned")
				}
			}
		})
		r.scenario("no aggregate", func(x *X) {
			src := source(x, [][]*T{{s("x"), x.flt(x.fltSym("b0"))}})
			got := opt(x, table(x), sel(x, col(x, "a")), src, nil)
			where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
			x.holds("error", where, x.isNil(x.at(got, 1)), "a list of plain columns fails")
			x.same("source", where, x.at(got, 0), src, "without aggregates the source is returned")
		})
		r.scenario("missing parts", func(x *X) {
			where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
			rows := [][]*T{{s("x"), x.flt(x.fltSym("b0"))}}
			sl := func() *T { return sel(x, x.fnCall("SUM", "b")) }
			x.holds("schema", where, x.notNil(x.at(opt(x, nil, sl(), source(x, rows), nil), 1)), "a missing table schema is accepted")
			x.holds("selectors", where, x.notNil(x.at(opt(x, table(x), nil, source(x, rows), nil), 1)), "missing selectors are accepted")
			x.holds("source", where, x.notNil(x.at(opt(x, table(x), sl(), nil, nil), 1)), "a missing source is accepted")
			x.holds("column", where, x.notNil(x.at(opt(x, table(x), sel(x, col(x, "nosuch"), x.fnCall("SUM", "b")), source(x, rows), nil), 1)), "a selector of an unknown column is accepted")
			x.holds("function", where, x.notNil(x.at(opt(x, table(x), sel(x, x.fnCall("ABS", "b"), x.fnCall("SUM", "b")), source(x, rows), nil), 1)), "a function that is no aggregate is accepted beside one")
			// a source whose row cannot be read
			fc := x.fn(rsPkg, "NewColumn", x.slice(x.fn(rsPkg, "WithColumnName", e.str("ABS(a)")), x.fn(rsPkg, "WithColumnFunction", x.fnCall("ABS", "a"))))
			fs := x.rsSchema(x.rsColumn("b", "DoubleType"), fc)
			fr := x.fn(rsPkg, "NewRow", x.slice(x.fn(rsPkg, "WithRowObject", x.mapOfPairs([]string{"a", "b"}, []*T{s("no number"), x.flt(x.fltSym("b0"))}))))
			fsrc := x.fn(rsPkg, "NewResultSet", x.slice(x.fn(rsPkg, "WithResultSetSchema", fs), x.fn(rsPkg, "WithResultSetRows", x.slice(fr))))
			x.holds("row", where, x.notNil(x.at(opt(x, table(x), sl(), fsrc, nil), 1)), "a source row that cannot be read is left out")
			x.holds("value", where, x.notNil(x.at(opt(x, table(x), sl(), source(x, [][]*T{{s("x"), s("no number")}}), nil), 1)), "a row that cannot be aggregated is accepted")
		})
		r.scenario("source without schema", func(x *X) {
			where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
			src := x.fn(rsPkg, "NewResultSet", x.slice(x.fn(rsPkg, "WithResultSetRows", x.slice())))
			got := opt(x, table(x), sel(x, x.fnCall("SUM", "b")), src, nil)
			x.holds("error", where, x.isNil(x.at(got, 1)), "an empty source without schema is refused")
		})
		for _, db := range []string{"db", "t", "", "T", "information_schema"} {
			r.scenario("names in "+db, func(x *X) {
				where := x.pos(rsPkg, "NewAggregatedResultSetFrom")
				sch := x.fn(rsPkg, "NewSchema", x.slice(x.fn(rsPkg, "WithSchemaDatabaseName", e.str(db)), x.fn(rsPkg, "WithSchemaTableName", e.str("t")), x.fn(rsPkg, "WithSchemaColumns", x.slice(x.rsColumn("b", "DoubleType")))))
				src := x.fn(rsPkg, "NewResultSet", x.slice(x.fn(rsPkg, "WithResultSetSchema", sch), x.fn(rsPkg, "WithResultSetRows", x.slice())))
				got := opt(x, table(x), sel(x, x.fnCall("SUM", "b")), src, nil)
				gs := x.m(x.typ(rsPkg, "ResultSet"), x.at(got, 0), "Schema")
				x.same("database", where, x.m(x.typ(rsPkg, "Schema"), gs, "DatabaseName"), e.str(db), "the database of the aggregated result")
				x.same("table", where, x.m(x.typ(rsPkg, "Schema"), gs, "TableName"), e.str("t"), "the table of the aggregated result")
				x.rsRows("no rows", where, x.at(got, 0), [][]*T{{x.flt(e.intc(0))}})
			})
		}
	})
}

// expectN compares a number of elements.
func (r *Run) expectN(x *X, key, where string, got, want int, what string) bool {
	r.expect(got == want, x.name+"|"+key+" number", where, "%s: %d %s, expected %d", x.name, got, what, want)
	return got == want
}

// rsRows compares the rows a result set yields.
func (x *X) rsRows(key, where string, rs *T, want [][]*T) {
	t, rt := x.typ(rsPkg, "ResultSet"), x.typ(rsPkg, "Row")
	for i, w := range want {
		k := fmt.Sprintf("%s row %d", key, i)
		x.same(k+" next", where, x.m(t, rs, "Next"), x.e.True, "Next reports row %d of %d", i, len(want))
		row := x.m(t, rs, "Row")
		x.holds(k+" error", where, x.isNil(x.at(row, 1)), "row %d is refused", i)
		x.same(k, where, x.m(rt, x.at(row, 0), "Values"), x.slice(w...), "the values of row %d", i)
	}
	x.same(key+" end", where, x.m(t, rs, "Next"), x.e.False, "Next reports a row after the last of %d", len(want))
}

// rsCols compares the column names of a result set.
func (x *X) rsCols(key, where string, rs *T, want ...string) {
	cols := x.m(x.typ(rsPkg, "Schema"), x.m(x.typ(rsPkg, "ResultSet"), rs, "Schema"), "Columns")
	lc := x.cases(cols)
	if len(lc) != 1 {
		x.r.unknown("%s|%s: the columns have no known shape", x.name, key)
		return
	}
	if x.r.expectN(x, key, where, len(lc[0].vs), len(want), "columns") {
		for i, c := range lc[0].vs {
			x.same(fmt.Sprintf("%s %d", key, i), where, x.m(x.typ(rsPkg, "Column"), c, "Name"), x.e.str(want[i]), "the name of column %d", i)
		}
	}
}
