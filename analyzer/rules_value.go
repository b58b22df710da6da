package main

import (
	"fmt"
	"go/types"
	"strings"
)

// goTypes are the Go types of the values of a column, by data type.
var goTypes = []struct {
	typ, cast string
	kind      types.BasicKind
}{
	{"TinyIntType", "Int8", types.Int8}, {"SmallIntType", "Int16", types.Int16}, {"IntType", "Int32", types.Int32},
	{"IntegerType", "Int32", types.Int32}, {"BigIntType", "Int64", types.Int64}, {"FloatType", "Float32", types.Float32},
	{"DoubleType", "Float64", types.Float64}, {"BooleanType", "Bool", types.Bool},
}

var plainTypes = []string{"TextType", "VarCharType", "CharType", "CharacterType", "BlobType", "BinaryType", "DateType", "TimeStampType"}

func init() {
	register("C15", func(r *Run) {
		e := r.e
		r.rule("evaluate SetValue and SetSchema on columns of every data type with an arbitrary value: the value left is the checked conversion to the Go type of the data type, a failed conversion is an error, and nothing else of the columns changes")
		where := "sql/query/column.go"
		def := func(x *X, typ string) *T { return x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, typ), e.intc(8)) }
		check := func(x *X, k, typ string, col, v, err *T, failed bool) {
			ct := x.typ(qryPkg, "Column")
			got := x.m(ct, col, "Value")
			for _, g := range goTypes {
				if g.typ != typ {
					continue
				}
				ok, c := e.castTerm(g.cast, v)
				want := e.iface(types.Typ[g.kind], c)
				x.same(k+" error", where, x.isNil(err), ok, "whether a value is accepted for %s", typ)
				x.holds(k+" value", where, e.or(e.not(ok), x.deepEq(got, want)), "the value of a column of %s is not the value converted to %s", typ, types.Typ[g.kind])
				return
			}
			x.holds(k+" error", where, x.isNil(err), "a value is refused for %s", typ)
			x.same(k+" value", where, got, v, "the value of a column of %s", typ)
		}
		var all []string
		for _, g := range goTypes {
			all = append(all, g.typ)
		}
		all = append(all, plainTypes...)
		for _, typ := range all {
			typ := typ
			for _, had := range []bool{true, false} {
				had := had
				r.scenario(fmt.Sprintf("SetValue of %s, value before: %v", typ, had), func(x *X) {
					ct := x.typ(qryPkg, "Column")
					opts := []*T{x.fn(qryPkg, "WithColumnName", e.str("a")), x.fn(qryPkg, "WithColumnData", def(x, typ))}
					if had {
						opts = append(opts, x.fn(qryPkg, "WithColumnLiteral", x.qLit("'old'")))
					}
					col := x.fn(qryPkg, "NewColumnWithOptions", x.slice(opts...))
					v := x.anySym("v")
					err := x.m(ct, col, "SetValue", v)
					check(x, "set", typ, col, v, err, false)
					x.same("name", where, x.m(ct, col, "Name"), e.str("a"), "the name after SetValue")
					x.same("type", where, x.m(ct, col, "DataType"), x.pkgConst(qryPkg, typ), "the data type after SetValue")
					x.same("has", where, x.m(ct, col, "HasValue"), e.True, "HasValue after SetValue")
				})
			}
			r.scenario("SetSchema of "+typ, func(x *X) {
				ct, lt := x.typ(qryPkg, "Column"), x.typ(qryPkg, "Columns")
				sd, other := def(x, typ), def(x, "TextType")
				named := func(n string, d *T) *T {
					return x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str(n)), x.fn(qryPkg, "WithColumnData", d)))
				}
				sch := x.wrap(x.fn(qryPkg, "NewSchemaWith", e.str("t"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(named("x", other), named("b", sd), named("y", other))))))
				v := x.anySym("v")
				lit := x.fn(qryPkg, "NewLiteralWith", v, x.slice())
				c := x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str("B")), x.fn(qryPkg, "WithColumnLiteral", lit)))
				d := x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str("x")), x.fn(qryPkg, "WithColumnLiteral", x.qLit("'k'"))))
				cs := x.slice(d, c)
				err := x.m(lt, cs, "SetSchema", sch)
				check(x, "set", typ, c, v, err, false)
				x.holds("definition", where, e.or(x.notNil(err), e.eq(x.m(ct, c, "DataType"), x.pkgConst(qryPkg, typ))), "the data type after SetSchema is not that of the schema")
				x.same("name", where, x.m(ct, c, "Name"), e.str("B"), "the name after SetSchema")
				x.same("other", where, x.m(ct, d, "Value"), e.anyStr("k"), "the value of another column")
				x.same("other type", where, x.m(ct, d, "DataType"), x.pkgConst(qryPkg, "TextType"), "the data type of another column")
			})
			r.scenario("SetSchema of "+typ+" without value", func(x *X) {
				ct, lt := x.typ(qryPkg, "Column"), x.typ(qryPkg, "Columns")
				sch := x.wrap(x.fn(qryPkg, "NewSchemaWith", e.str("t"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str("b")), x.fn(qryPkg, "WithColumnData", def(x, typ)))))))))
				c := x.fn(qryPkg, "NewColumnWithName", e.str("b"))
				x.holds("accepted", where, x.isNil(x.m(lt, x.slice(c), "SetSchema", sch)), "a column without value is refused for %s", typ)
				x.same("type", where, x.m(ct, c, "DataType"), x.pkgConst(qryPkg, typ), "the data type after SetSchema")
				x.same("has", where, x.m(ct, c, "HasValue"), e.False, "HasValue of a column without value after SetSchema")
			})
		}
		// values with a sure outcome
		for _, k := range []struct {
			typ  string
			v    string
			want string // Go type and value, or "" for an error
		}{
			{"TinyIntType", "12", "int8 12"},
			{"TinyIntType", "300", ""},
			{"SmallIntType", "40000", ""},
			{"IntType", "3000000000", ""},
			{"IntegerType", "-7", "int32 -7"},
			{"BigIntType", "9223372036854775807", "int64 9223372036854775807"},
			{"BigIntType", "abc", ""},
			{"DoubleType", "0.1", "float64 0.1"},
			{"FloatType", "1.5", "float32 1.5"},
			{"SmallIntType", "-32768", "int16 -32768"},
			{"SmallIntType", "32767", "int16 32767"},
			{"TinyIntType", "-128", "int8 -128"},
			{"TinyIntType", "127", "int8 127"},
			{"TinyIntType", "128", ""},
			{"TinyIntType", "-129", ""},
			{"IntType", "2147483647", "int32 2147483647"},
			{"IntType", "-2147483648", "int32 -2147483648"},
			{"IntegerType", "2147483648", ""},
			{"BooleanType", "false", "bool false"},
			{"BooleanType", "true", "bool true"},
		} {
			k := k
			r.scenario(fmt.Sprintf("%s given %q", k.typ, k.v), func(x *X) {
				ct := x.typ(qryPkg, "Column")
				col := x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str("a")), x.fn(qryPkg, "WithColumnData", def(x, k.typ))))
				err := x.m(ct, col, "SetValue", e.anyStr(k.v))
				if k.want == "" {
					x.holds("refused", where, x.notNil(err), "a value out of range is accepted for %s", k.typ)
					return
				}
				x.holds("accepted", where, x.isNil(err), "a value is refused for %s", k.typ)
				got := x.m(ct, col, "Value")
				if got.op != OIface || got.args[0].op != OConst {
					r.unknown("%s: value", x.name)
					return
				}
				s := types.TypeString(got.typ, nil) + " " + strings.Trim(got.args[0].cv.ExactString(), `"`)
				if f, isF := got.args[0].isFloat(); isF && got.typ.Underlying().(*types.Basic).Info()&types.IsFloat != 0 {
					s = fmt.Sprint(types.TypeString(got.typ, nil), " ", f)
				}
				r.expect(s == k.want, x.name+"|value", where, "%s: the value is %s, not %s", x.name, s, k.want)
			})
		}
		// every type with corner-case values, alone and after another value
		str := func(s string) *T { return e.anyStr(s) }
		num := func(n int, k types.BasicKind) *T { return e.iface(types.Typ[k], e.intc(n)) }
		vals := []struct {
			name string
			v    *T
		}{
			{"empty string", str("")}, {"blank", str(" ")}, {"text", str("abc")}, {"padded number", str(" 12")}, {"zero", str("0")}, {"one", str("1")}, {"minus one", str("-1")}, {"word", str("yes")},
			{"text NULL", str("NULL")}, {"nil", e.Nil}, {"int 0", num(0, types.Int)}, {"int 1", num(1, types.Int)}, {"int -1", num(-1, types.Int)}, {"int 1000", num(1000, types.Int)},
			{"int64 large", num(1<<40, types.Int64)}, {"int8", num(-5, types.Int8)}, {"large number", str("1099511627776")},
		}
		for _, typ := range all {
			typ := typ
			for _, size := range []int{0, 1, 255} {
				size := size
				r.scenario(fmt.Sprintf("%s(%d) given corner cases", typ, size), func(x *X) {
					ct := x.typ(qryPkg, "Column")
					mk := func() *T {
						return x.fn(qryPkg, "NewColumnWithOptions", x.slice(x.fn(qryPkg, "WithColumnName", e.str("a")), x.fn(qryPkg, "WithColumnData", x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, typ), e.intc(size)))))
					}
					again := mk()
					for _, c := range vals {
						col := mk()
						check(x, c.name, typ, col, c.v, x.m(ct, col, "SetValue", c.v), false)
						check(x, "after others "+c.name, typ, again, c.v, x.m(ct, again, "SetValue", c.v), false)
					}
				})
			}
		}
		r.scenario("SetSchema after SetSchema", func(x *X) {
			ct, lt := x.typ(qryPkg, "Column"), x.typ(qryPkg, "Columns")
			sch := func(t string) *T {
				return x.wrap(x.fn(qryPkg, "NewSchemaWith", e.str("t"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(x.qDef("a", t, 0))))))
			}
			c := x.qVal("a", "12")
			l := x.slice(c)
			for i, s := range []struct {
				t string
				k types.BasicKind
			}{{"IntType", types.Int32}, {"IntType", types.Int32}, {"BigIntType", types.Int64}, {"TinyIntType", types.Int8}} {
				key := fmt.Sprint(i, " ", s.t)
				x.holds("accepted "+key, where, x.isNil(x.m(lt, l, "SetSchema", sch(s.t))), "a value is refused for %s", s.t)
				x.same("value "+key, where, x.m(ct, c, "Value"), e.iface(types.Typ[s.k], e.intc(12)), "the value for %s", s.t)
				x.same("type "+key, where, x.m(ct, c, "DataType"), x.pkgConst(qryPkg, s.t), "the data type")
			}
		})
		r.scenario("SetSchema with an unknown column without value", func(x *X) {
			lt := x.typ(qryPkg, "Columns")
			sch := x.wrap(x.fn(qryPkg, "NewSchemaWith", e.str("t"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(x.qDef("a", "IntType", 0))))))
			for i, n := range []string{"z", "", "a ", "*"} {
				err := x.m(lt, x.slice(x.qVal("a", "1"), x.fn(qryPkg, "NewColumnWithName", e.str(n))), "SetSchema", sch)
				x.holds(fmt.Sprint("refused ", i), where, x.isErr(err, qryPkg, "ErrNotFound"), "the column %q the schema does not have is not ErrNotFound", n)
			}
		})
		r.scenario("SetSchema with an unknown column", func(x *X) {
			ct, lt := x.typ(qryPkg, "Column"), x.typ(qryPkg, "Columns")
			sch := x.wrap(x.fn(qryPkg, "NewSchemaWith", e.str("t"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(x.qDef("a", "IntType", 0), x.qDef("b", "IntType", 0))))))
			c, d := x.qVal("a", "1"), x.qVal("z", "2")
			err := x.m(lt, x.slice(c, d), "SetSchema", sch)
			x.holds("kind", where, x.isErr(err, qryPkg, "ErrNotFound"), "a column the schema does not have is not ErrNotFound")
			x.same("name", where, x.m(ct, d, "Name"), e.str("z"), "the name of the unknown column")
			x.holds("empty", where, x.isNil(x.m(lt, x.slice(), "SetSchema", sch)), "an empty column list is refused")
		})
		r.scenario("SetValue without definition", func(x *X) {
			ct := x.typ(qryPkg, "Column")
			c := x.fn(qryPkg, "NewColumnWithName", e.str("b"))
			v := x.anySym("v")
			x.holds("accepted", where, x.isNil(x.m(ct, c, "SetValue", v)), "a value is refused for a column without definition")
			x.same("value", where, x.m(ct, c, "Value"), v, "the value of a column without definition")
			w := x.anySym("w")
			x.m(ct, c, "SetValue", w)
			x.same("value 2", where, x.m(ct, c, "Value"), w, "the value set again")
		})
	})
}
