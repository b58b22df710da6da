package main

import (
	"fmt"
	"go/types"
	"strings"
)

// qSpec is a column as it was asked for.
type qSpec struct {
	name         string
	def, lit, fx bool
}

func (x *X) qColumn(s qSpec) (col, def, lit, fx *T) {
	opts := []*T{x.fn(qryPkg, "WithColumnName", x.e.str(s.name))}
	if s.def {
		def = x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, "VarCharType"), x.e.intc(8))
		opts = append(opts, x.fn(qryPkg, "WithColumnData", def))
	}
	if s.lit {
		lit = x.fn(qryPkg, "NewLiteralWith", x.e.iface(types.Typ[types.String], x.strSym("v"+s.name)), x.slice(x.fn(qryPkg, "WithLiteralType", x.pkgConst(qryPkg, "StringLiteral"))))
		opts = append(opts, x.fn(qryPkg, "WithColumnLiteral", lit))
	}
	if s.fx {
		fx = x.fnCall("ABS", "x")
		opts = append(opts, x.fn(qryPkg, "WithColumnFunction", fx), x.fn(qryPkg, "WithColumnArguments", x.strs("x")))
	}
	return x.fn(qryPkg, "NewColumnWithOptions", x.slice(opts...)), def, lit, fx
}

func (x *X) qNamed(names ...string) []*T {
	var cs []*T
	for _, n := range names {
		c, _, _, _ := x.qColumn(qSpec{name: n, def: true})
		cs = append(cs, c)
	}
	return cs
}

func (x *X) qIndexes(names ...string) []*T {
	var is []*T
	for i, n := range names {
		is = append(is, x.fn(qryPkg, "NewSecondaryIndexWith", x.e.str(n), x.slice(x.qNamed(fmt.Sprintf("c%d", i))...)))
	}
	return is
}

// qMixed makes columns of different kinds.
func (x *X) qMixed(names ...string) []*T {
	var cs []*T
	for i, n := range names {
		k := (i + len(names) + len(n)) % 8
		c, _, _, _ := x.qColumn(qSpec{name: n, def: k&4 == 0, lit: k&1 != 0, fx: k&2 != 0})
		cs = append(cs, c)
	}
	return cs
}

// qMixedIndexes makes indexes of different types over different numbers of columns.
func (x *X) qMixedIndexes(names ...string) []*T {
	var is []*T
	for i, n := range names {
		typ := []string{"PrimaryIndex", "SecondaryIndex", "UnknownIndex"}[(i+len(names)+len(n))%3]
		is = append(is, x.fn(qryPkg, "NewIndexWith", x.e.str(n), x.pkgConst(qryPkg, typ), x.slice(x.qMixed([]string{"c0", "c1", "c2"}[:i%3]...)...)))
	}
	return is
}

// snap is the present content of a list, as a caller would see it later.
func (x *X) listIs(key, where string, got *T, want []*T, format string, a ...any) {
	x.same(key, where, got, x.slice(want...), format, a...)
}

func without(vs []*T, i int) []*T {
	return append(append([]*T{}, vs[:i]...), vs[i+1:]...)
}

func init() {
	register("C29", func(r *Run) {
		e := r.e
		r.rule("evaluate the alterations of a table schema of up to three columns and indexes, for every position, in histories of up to three steps, and every kind of ALTER TABLE: exactly the named column or index is added at the end or removed, the others keep their order, an unknown name is an error that changes nothing, and lists handed in or out earlier stay as they were")
		names := []string{"id", "Name", "AGE"}
		st := func(x *X) types.Type { return x.typ(qryPkg, "Schema") }
		where := "sql/query/schema.go"
		type kind struct {
			what, all, look, add, drop, with, alterAdd, alterDrop string
			mk                                                    func(x *X, names ...string) []*T
		}
		kinds := []kind{
			{"column", "Columns", "LookupColumn", "AddColumn", "DropColumn", "WithSchemaColumns", "WithAlterTableAddColumn", "WithAlterTableDropColumn", (*X).qNamed},
			{"index", "Indexes", "LookupIndex", "AddIndex", "DropIndex", "WithSchemaIndexes", "WithAlterTableAddIndex", "WithAlterTableDropIndex", (*X).qIndexes},
			{"column", "Columns", "LookupColumn", "AddColumn", "DropColumn", "WithSchemaColumns", "WithAlterTableAddColumn", "WithAlterTableDropColumn", (*X).qMixed},
			{"index", "Indexes", "LookupIndex", "AddIndex", "DropIndex", "WithSchemaIndexes", "WithAlterTableAddIndex", "WithAlterTableDropIndex", (*X).qMixedIndexes},
		}
		mkSchema := func(x *X, k kind, els []*T) (*T, *T, *T, []*T) {
			given := x.slice(els...)
			other := kinds[0]
			if k.what == "column" {
				other = kinds[1]
			}
			os := other.mk(x, "o1", "o2")
			s := x.fn(qryPkg, "NewSchemaWith", e.str("tbl"), x.slice(x.fn(qryPkg, k.with, given), x.fn(qryPkg, other.with, x.slice(os...))))
			return s, given, x.m(st(x), s, k.all), os
		}
		okNow := func(x *X, k kind, s *T, want []*T, wn []string, gone []string, key string) {
			x.listIs(key+" list", where, x.m(st(x), s, k.all), want, "the %s list after %s", k.what, key)
			for i, n := range wn {
				for _, f := range []string{n, strings.ToLower(n), strings.ToUpper(n)} {
					v := x.m(st(x), s, k.look, e.str(f))
					x.holds(key+" found "+f, where, x.isNil(x.at(v, 1)), "%s %s is not found after %s", k.what, f, key)
					x.same(key+" is "+f, where, x.at(v, 0), want[i], "%s %s after %s", k.what, f, key)
				}
			}
			for _, n := range gone {
				v := x.m(st(x), s, k.look, e.str(n))
				x.holds(key+" absent "+n, where, x.notNil(x.at(v, 1)), "%s %s is found after %s", k.what, n, key)
				x.holds(key+" is ErrNotFound "+n, where, x.isErr(x.at(v, 1), qryPkg, "ErrNotFound"), "the error about %s %s after %s is not ErrNotFound", k.what, n, key)
			}
		}
		unchanged := func(x *X, k kind, s *T, given, got *T, was, others []*T) {
			x.listIs("given", where, given, was, "the %s list handed in by the caller", k.what)
			x.listIs("got", where, got, was, "the %s list handed out before", k.what)
			o := "Indexes"
			if k.what == "index" {
				o = "Columns"
			}
			x.listIs("others", where, x.m(st(x), s, o), others, "the other list of the schema")
			x.same("name", where, x.m(st(x), s, "TableName"), e.str("tbl"), "the table name")
		}
		for ki, k := range kinds {
			k := k
			mix := ""
			if ki >= 2 {
				mix = " of mixed kinds"
			}
			for n := 0; n <= 3; n++ {
				n := n
				r.scenario(fmt.Sprintf("%d %s list%s", n, k.what, mix), func(x *X) {
					els := k.mk(x, names[:n]...)
					s, given, got, os := mkSchema(x, k, els)
					okNow(x, k, s, els, names[:n], []string{"zz", "", "i"}, "creation")
					err := x.m(st(x), s, k.drop, e.str("zz"))
					x.holds("unknown", where, x.isErr(err, qryPkg, "ErrNotFound"), "dropping an unknown %s is not an ErrNotFound error", k.what)
					okNow(x, k, s, els, names[:n], []string{"zz"}, "a refused drop")
					unchanged(x, k, s, given, got, els, os)
				})
				r.scenario(fmt.Sprintf("add to %d %s list%s", n, k.what, mix), func(x *X) {
					els := k.mk(x, names[:n]...)
					s, given, got, os := mkSchema(x, k, els)
					ad := k.mk(x, "new", "newer")
					x.holds("add", where, x.isNil(x.m(st(x), s, k.add, ad[0])), "adding a %s is refused", k.what)
					okNow(x, k, s, append(append([]*T{}, els...), ad[0]), append(append([]string{}, names[:n]...), "new"), []string{"newer"}, "adding")
					x.holds("add 2", where, x.isNil(x.m(st(x), s, k.add, ad[1])), "adding a %s is refused", k.what)
					okNow(x, k, s, append(append([]*T{}, els...), ad...), append(append([]string{}, names[:n]...), "new", "newer"), []string{"zz"}, "adding twice")
					unchanged(x, k, s, given, got, els, os)
				})
				r.scenario(fmt.Sprintf("alter add to %d %s list%s", n, k.what, mix), func(x *X) {
					els := k.mk(x, names[:n]...)
					s, given, got, os := mkSchema(x, k, els)
					ad := k.mk(x, "new")
					al := x.fn(qryPkg, "NewAlterTableWith", e.str("tbl"), x.slice(x.fn(qryPkg, k.alterAdd, ad[0])))
					x.holds("alter", where, x.isNil(x.m(st(x), s, "Alter", al)), "ALTER TABLE ADD is refused")
					okNow(x, k, s, append(append([]*T{}, els...), ad[0]), append(append([]string{}, names[:n]...), "new"), nil, "ALTER ADD")
					unchanged(x, k, s, given, got, els, os)
				})
				for i := 0; i <= n; i++ {
					i := i
					// i == n: an unknown name
					nm := "zz"
					if i < n {
						nm = names[i]
					}
					for _, how := range []string{"drop", "alter"} {
						for _, f := range []string{nm, strings.ToLower(nm), strings.ToUpper(nm)} {
							how, f := how, f
							r.scenario(fmt.Sprintf("%s %s of %d %s list%s", how, f, n, k.what, mix), func(x *X) {
								els := k.mk(x, names[:n]...)
								s, given, got, os := mkSchema(x, k, els)
								var err *T
								if how == "drop" {
									err = x.m(st(x), s, k.drop, e.str(f))
								} else {
									al := x.fn(qryPkg, "NewAlterTableWith", e.str("tbl"), x.slice(x.fn(qryPkg, k.alterDrop, k.mk(x, f)[0])))
									err = x.m(st(x), s, "Alter", al)
								}
								if i == n {
									x.holds("refused", where, x.isErr(err, qryPkg, "ErrNotFound"), "dropping an unknown %s is not an ErrNotFound error", k.what)
									okNow(x, k, s, els, names[:n], nil, "a refused drop")
									unchanged(x, k, s, given, got, els, os)
									return
								}
								x.holds("accepted", where, x.isNil(err), "dropping the %s %s is refused", k.what, f)
								okNow(x, k, s, without(els, i), append(append([]string{}, names[:i]...), names[i+1:n]...), []string{nm}, "dropping "+nm)
								unchanged(x, k, s, given, got, els, os)
								// dropping again and adding afterwards
								x.holds("again", where, x.notNil(x.m(st(x), s, k.drop, e.str(f))), "dropping the %s %s again is accepted", k.what, f)
								ad := k.mk(x, f)
								x.holds("re-add", where, x.isNil(x.m(st(x), s, k.add, ad[0])), "adding the %s %s again is refused", k.what, f)
								okNow(x, k, s, append(without(els, i), ad[0]), append(append(append([]string{}, names[:i]...), names[i+1:n]...), f), nil, "adding it again")
								unchanged(x, k, s, given, got, els, os)
							})
						}
					}
				}
			}
		}
		for _, k := range kinds[:2] {
			k := k
			for n := 0; n <= 2; n++ {
				n := n
				for _, how := range []string{"add", "alter"} {
					how := how
					r.scenario(fmt.Sprintf("%s to the %d %s beginning of a longer list", how, n, k.what), func(x *X) {
						els, rest := k.mk(x, names[:n]...), k.mk(x, "r1", "r2", "r3")
						given, all := x.spare(els, rest)
						s := x.fn(qryPkg, "NewSchemaWith", e.str("tbl"), x.slice(x.fn(qryPkg, k.with, given)))
						ad := k.mk(x, "new", "newer")
						for i, a := range ad {
							err := e.Nil
							if how == "add" {
								err = x.m(st(x), s, k.add, a)
							} else {
								err = x.m(st(x), s, "Alter", x.fn(qryPkg, "NewAlterTableWith", e.str("tbl"), x.slice(x.fn(qryPkg, k.alterAdd, a))))
							}
							x.holds(fmt.Sprint("add ", i), where, x.isNil(err), "adding a %s is refused", k.what)
						}
						okNow(x, k, s, append(append([]*T{}, els...), ad...), append(append([]string{}, names[:n]...), "new", "newer"), []string{"r1"}, "adding")
						x.listIs("whole", where, all, append(append([]*T{}, els...), rest...), "the longer list of the caller, whose beginning it handed in")
					})
				}
			}
			r.scenario("the same "+k.what+" twice", func(x *X) {
				els := k.mk(x, "a", "b")
				s, given, got, os := mkSchema(x, k, els)
				x.holds("again", where, x.isNil(x.m(st(x), s, k.add, els[0])), "adding a %s is refused", k.what)
				x.listIs("list", where, x.m(st(x), s, k.all), []*T{els[0], els[1], els[0]}, "the list after a %s was added again", k.what)
				unchanged(x, k, s, given, got, els, os)
				x.holds("drop", where, x.isNil(x.m(st(x), s, k.drop, e.str("A"))), "dropping a %s is refused", k.what)
				x.listIs("dropped", where, x.m(st(x), s, k.all), []*T{els[1], els[0]}, "the list after one of two %s of the name was dropped", k.what)
				unchanged(x, k, s, given, got, els, os)
			})
			r.scenario("near misses of a "+k.what+" name", func(x *X) {
				els := k.mk(x, "id", "name_1")
				s, given, got, os := mkSchema(x, k, els)
				for _, n := range []string{"", "i", "idx", " id", "id ", "`id`", "tbl.id", "name", "name-1", "name_", "*", "o1"} {
					err := x.m(st(x), s, k.drop, e.str(n))
					x.holds("drop "+n, where, x.isErr(err, qryPkg, "ErrNotFound"), "dropping the unknown %s %q is not an ErrNotFound error", k.what, n)
				}
				okNow(x, k, s, els, []string{"id", "name_1"}, []string{" id", "id ", "i", "*", "name-1"}, "refused drops")
				unchanged(x, k, s, given, got, els, os)
			})
		}
		r.scenario("a column and an index of one name", func(x *X) {
			for _, how := range []string{"drop", "alter"} {
				for i, k := range kinds[:2] {
					cs, is := x.qNamed("a", "b"), x.qIndexes("a", "b")
					s := x.fn(qryPkg, "NewSchemaWith", e.str("tbl"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(cs...)), x.fn(qryPkg, "WithSchemaIndexes", x.slice(is...))))
					key := fmt.Sprint(how, " ", k.what, " ")
					err := e.Nil
					if how == "drop" {
						err = x.m(st(x), s, k.drop, e.str("a"))
					} else {
						err = x.m(st(x), s, "Alter", x.fn(qryPkg, "NewAlterTableWith", e.str("tbl"), x.slice(x.fn(qryPkg, k.alterDrop, k.mk(x, "a")[0]))))
					}
					x.holds(key, where, x.isNil(err), "dropping the %s a is refused", k.what)
					wc, wi := cs, is
					if i == 0 {
						wc = cs[1:]
					} else {
						wi = is[1:]
					}
					x.listIs(key+"columns", where, x.m(st(x), s, "Columns"), wc, "the columns after the %s a was dropped", k.what)
					x.listIs(key+"indexes", where, x.m(st(x), s, "Indexes"), wi, "the indexes after the %s a was dropped", k.what)
				}
			}
		})
		r.scenario("rename is refused", func(x *X) {
			cs := x.qNamed(names...)
			s, given, got, os := mkSchema(x, kinds[0], cs)
			for _, o := range []*T{
				x.fn(qryPkg, "WithAlterTableRenameTo", x.fn(qryPkg, "NewTableWith", e.str("other"), x.slice())),
				x.fn(qryPkg, "WithAlterTableRenameColumn", cs[0], x.qNamed("other")[0]),
			} {
				al := x.fn(qryPkg, "NewAlterTableWith", e.str("tbl"), x.slice(o))
				x.holds("rename", where, x.notNil(x.m(st(x), s, "Alter", al)), "an alteration that is not carried out is accepted")
			}
			okNow(x, kinds[0], s, cs, names, []string{"other"}, "a refused rename")
			unchanged(x, kinds[0], s, given, got, cs, os)
		})
		r.scenario("two actions", func(x *X) {
			cs := x.qNamed(names...)
			s, _, _, os := mkSchema(x, kinds[0], cs)
			nc, ni := x.qNamed("new"), x.qIndexes("newidx")
			al := x.fn(qryPkg, "NewAlterTableWith", e.str("tbl"), x.slice(
				x.fn(qryPkg, "WithAlterTableAddColumn", nc[0]), x.fn(qryPkg, "WithAlterTableAddIndex", ni[0]),
				x.fn(qryPkg, "WithAlterTableDropColumn", x.qNamed("name")[0]), x.fn(qryPkg, "WithAlterTableDropIndex", x.qIndexes("O1")[0])))
			x.holds("alter", where, x.isNil(x.m(st(x), s, "Alter", al)), "the alteration is refused")
			x.listIs("columns", where, x.m(st(x), s, "Columns"), []*T{cs[0], cs[2], nc[0]}, "the columns")
			x.listIs("indexes", where, x.m(st(x), s, "Indexes"), []*T{os[1], ni[0]}, "the indexes")
		})
		r.scenario("alter from statements", func(x *X) {
			w := x.pos(qryPkg, "NewAlterTableFrom")
			at := x.typ(qryPkg, "AlterTable")
			idx := x.qIndexes("i1")
			sc := x.fn(qryPkg, "NewSchemaWith", e.str("tbl"), x.slice(x.fn(qryPkg, "WithSchemaIndexes", x.slice(idx...))))
			ci := x.fn(qryPkg, "NewCreateIndexWith", sc, x.fn(qryPkg, "NewIfNotExistsWith", e.False))
			v := x.fn(qryPkg, "NewAlterTableFrom", ci)
			x.holds("create", w, x.isNil(x.at(v, 1)), "CREATE INDEX is refused")
			a := x.at(v, 0)
			x.same("create table", w, x.m(at, a, "TableName"), e.str("tbl"), "the table of CREATE INDEX")
			x.same("create index", w, x.m(at, a, "AddIndex"), e.tuple(idx[0], e.True), "the index of CREATE INDEX")
			x.same("create drop", w, x.at(x.m(at, a, "DropIndex"), 1), e.False, "CREATE INDEX drops")
			di := x.fn(qryPkg, "NewDropIndexWith", e.str("tbl"), e.str("i1"), x.fn(qryPkg, "NewIfExistsWith", e.False))
			v = x.fn(qryPkg, "NewAlterTableFrom", di)
			x.holds("drop", w, x.isNil(x.at(v, 1)), "DROP INDEX is refused")
			a = x.at(v, 0)
			x.same("drop table", w, x.m(at, a, "TableName"), e.str("tbl"), "the table of DROP INDEX")
			d := x.m(at, a, "DropIndex")
			x.same("drop ok", w, x.at(d, 1), e.True, "DROP INDEX drops")
			x.same("drop index", w, x.m(x.typ(qryPkg, "Index"), x.at(d, 0), "Name"), e.str("i1"), "the index of DROP INDEX")
			x.same("drop add", w, x.at(x.m(at, a, "AddIndex"), 1), e.False, "DROP INDEX adds")
			us := x.fn(qryPkg, "NewUseWith", e.str("db"))
			v = x.fn(qryPkg, "NewAlterTableFrom", us)
			x.holds("other", w, x.isErr(x.at(v, 1), errPkg, "ErrNotSupported"), "a statement that does not alter a table is accepted")
		})
	})

	// accessors of a column, by name
	colAcc := []string{"Name", "Definition", "Constraint", "DataType", "DataTypeSize", "HasValue", "Value", "ValueType", "ValueString", "IsFunction", "Function", "Arguments", "String", "DefinitionString", "IsAsterisk", "IsPlaceHolder"}

	register("C30", func(r *Run) {
		e := r.e
		r.rule("evaluate Copy of a column with every combination of definition, value and function, alone and in lists: every accessor of the copy answers like the original, and setting a value on either leaves the other as it was")
		where := "sql/query/column.go"
		forCols(func(tag string, s qSpec) {
			r.scenario("copy of a column"+tag, func(x *X) {
				ct := x.typ(qryPkg, "Column")
				col, _, _, _ := x.qColumn(s)
				cp := x.m(ct, col, "Copy")
				before := map[string]*T{}
				for _, a := range colAcc {
					before[a] = x.m(ct, col, a)
					x.same("copy "+a, where, x.m(ct, cp, a), before[a], "%s of a copy", a)
				}
				x.holds("other object", where, e.not(e.eq(col, cp)), "the copy is the column itself")
				x.m(ct, cp, "SetValue", e.iface(types.Typ[types.String], e.str("new")))
				for _, a := range colAcc {
					x.same("original "+a, where, x.m(ct, col, a), before[a], "%s of the column after its copy was set", a)
				}
				cp2 := x.m(ct, col, "Copy")
				x.m(ct, col, "SetValue", e.iface(types.Typ[types.String], e.str("newer")))
				for _, a := range colAcc {
					x.same("copy kept "+a, where, x.m(ct, cp2, a), before[a], "%s of a copy after the column was set", a)
				}
				x.same("copy own value", where, x.m(ct, cp, "Value"), e.iface(types.Typ[types.String], e.str("new")), "the value set on a copy")
				x.same("own value", where, x.m(ct, col, "Value"), e.iface(types.Typ[types.String], e.str("newer")), "the value set on a column")
			})
		})
		odd := func(x *X) map[string]*T {
			nm := x.fn(qryPkg, "WithColumnName", e.str("a"))
			return map[string]*T{
				"arguments and no function": x.fn(qryPkg, "NewColumnWithOptions", x.slice(nm, x.fn(qryPkg, "WithColumnArguments", x.strs("p", "q")))),
				"the value nil":             x.fn(qryPkg, "NewColumnWithOptions", x.slice(nm, x.fn(qryPkg, "WithColumnLiteral", x.fn(qryPkg, "NewLiteralWith", e.Nil, x.slice())))),
				"an empty literal":          x.fn(qryPkg, "NewColumnWithOptions", x.slice(nm, x.fn(qryPkg, "WithColumnLiteral", x.fn(qryPkg, "NewLiteral")))),
				"no name":                   x.fn(qryPkg, "NewColumnWithOptions", x.slice()),
			}
		}
		for _, k := range []string{"arguments and no function", "the value nil", "an empty literal", "no name"} {
			k := k
			r.scenario("copy of a column with "+k, func(x *X) {
				ct := x.typ(qryPkg, "Column")
				col := odd(x)[k]
				lt := x.typ(qryPkg, "Columns")
				for i, cp := range []*T{x.m(ct, col, "Copy"), x.at(x.m(lt, x.m(lt, x.slice(col), "Copy"), "ColumnAt", e.intc(0)), 0)} {
					before := map[string]*T{}
					for _, a := range colAcc {
						before[a] = x.m(ct, col, a)
						x.same(fmt.Sprint("copy ", i, a), where, x.m(ct, cp, a), before[a], "%s of a copy", a)
					}
					x.m(ct, cp, "SetValue", e.iface(types.Typ[types.String], e.str("new")))
					for _, a := range colAcc {
						x.same(fmt.Sprint("original ", i, a), where, x.m(ct, col, a), before[a], "%s of the column after its copy was set", a)
					}
				}
			})
		}
		for n := 0; n <= 3; n++ {
			n := n
			r.scenario(fmt.Sprintf("copy of %d columns", n), func(x *X) {
				ct, lt := x.typ(qryPkg, "Column"), x.typ(qryPkg, "Columns")
				var cs []*T
				for i := 0; i < n; i++ {
					c, _, _, _ := x.qColumn(qSpec{name: string(rune('a' + i)), def: i != 1, lit: i != 2, fx: i == 2})
					cs = append(cs, c)
				}
				l := x.slice(cs...)
				cp := x.m(lt, l, "Copy")
				x.same("len", where, x.m(lt, cp, "Len"), e.intc(n), "the number of copied columns")
				for i := 0; i < n; i++ {
					v := x.m(lt, cp, "ColumnAt", e.intc(i))
					x.holds(fmt.Sprint("at ", i), where, x.isNil(x.at(v, 1)), "the copy has no column %d", i)
					for _, a := range colAcc {
						x.same(fmt.Sprint("copy ", i, a), where, x.m(ct, x.at(v, 0), a), x.m(ct, cs[i], a), "%s of copied column %d", a, i)
					}
					was := x.m(ct, cs[i], "Value")
					x.m(ct, x.at(v, 0), "SetValue", e.iface(types.Typ[types.String], e.str("new")))
					x.same(fmt.Sprint("original ", i), where, x.m(ct, cs[i], "Value"), was, "the value of column %d after its copy was set", i)
				}
				x.listIs("list", where, l, cs, "the copied list")
			})
		}
		for _, c := range []struct{ fn, t string }{{"NewColumnsWith", "Columns"}, {"NewSelectorsWith", "Selectors"}, {"NewSelectorsWithColums", "Selectors"}} {
			c := c
			r.scenario(c.fn+" copies", func(x *X) {
				cs := x.qNamed("a", "b")
				given := x.slice(cs...)
				l := x.fn(qryPkg, c.fn, given)
				x.setElem(given, 0, x.qNamed("z")[0])
				x.same("names", where, x.m(x.typ(qryPkg, c.t), l, "Names"), x.strs("a", "b"), "the names after the caller changed its list")
			})
		}
	})

	register("C31", func(r *Run) {
		e := r.e
		r.rule("evaluate every accessor and lookup of columns, tables, indexes, literals, selector lists and statements, for every combination of parts and every position from -2 to past the end: each answers for exactly what the object holds, unknown names and positions are errors, and nothing panics")
		where := "sql/query"
		ct := func(x *X) types.Type { return x.typ(qryPkg, "Column") }
		forCols(func(tag string, s qSpec) {
			r.scenario("column"+tag, func(x *X) {
				col, def, lit, fx := x.qColumn(s)
				get := func(n string) *T { return x.m(ct(x), col, n) }
				x.same("Name", where, get("Name"), e.str(s.name), "the name of a column")
				x.same("String", where, get("String"), e.str(s.name), "the rendering of a column")
				x.same("IsName", where, x.m(ct(x), col, "IsName", e.str(s.name)), e.True, "IsName of its name")
				x.same("IsName other", where, x.m(ct(x), col, "IsName", e.str(s.name+"x")), e.False, "IsName of another name")
				x.same("HasValue", where, get("HasValue"), e.boolc(s.lit), "HasValue")
				x.same("IsFunction", where, get("IsFunction"), e.boolc(s.fx), "IsFunction")
				f := get("Function")
				x.same("Function ok", where, x.at(f, 1), e.boolc(s.fx), "whether Function has one")
				if s.fx {
					x.same("Function", where, x.at(f, 0), fx, "the function")
				}
				if s.lit {
					x.same("Value", where, get("Value"), x.m(types.NewPointer(x.typ(qryPkg, "Literal")), lit, "Value"), "the value")
					x.same("ValueType", where, get("ValueType"), x.pkgConst(qryPkg, "StringLiteral"), "the type of the value")
				} else {
					x.same("Value", where, get("Value"), e.Nil, "the value of a column without one")
					x.same("ValueString", where, get("ValueString"), e.str(""), "the rendering of a missing value")
				}
				if s.def {
					x.same("Definition", where, get("Definition"), def, "the definition")
					x.same("DataType", where, get("DataType"), x.pkgConst(qryPkg, "VarCharType"), "the data type")
					x.same("DataTypeSize", where, get("DataTypeSize"), e.intc(8), "the size")
					x.same("DefinitionString", where, get("DefinitionString"), e.str(s.name+" VARCHAR(8)"), "the rendering of the definition")
				} else {
					x.same("DataType", where, get("DataType"), x.pkgConst(qryPkg, "UnknownData"), "the data type of an undefined column")
					x.same("DataTypeSize", where, get("DataTypeSize"), e.intc(0), "the size of an undefined column")
					x.same("DefinitionString", where, get("DefinitionString"), e.str(s.name), "the rendering of an undefined column")
				}
				x.same("Constraint", where, get("Constraint"), x.pkgConst(qryPkg, "ConstraintNone"), "the constraint")
				for _, a := range colAcc {
					get(a)
				}
				x.same("IsAsterisk", where, get("IsAsterisk"), e.False, "IsAsterisk")
			})
		})
		names := []string{"id", "Name", "AGE"}
		for n := 0; n <= 3; n++ {
			n := n
			colList := func(x *X, cs []*T) {
				lt := x.typ(qryPkg, "Columns")
				l := x.slice(cs...)
				x.same("Len", where, x.m(lt, l, "Len"), e.intc(n), "the length")
				for _, m := range []string{"Names", "ColumnNames"} {
					x.same(m, where, x.m(lt, l, m), x.strs(names[:n]...), "the names")
				}
				x.same("NameString", where, x.m(lt, l, "NameString"), e.str(strings.Join(names[:n], ", ")), "the joined names")
				x.same("IsAsterisk", where, x.m(lt, l, "IsAsterisk"), e.boolc(n == 0), "IsAsterisk")
				x.same("Selectors", where, x.m(x.typ(qryPkg, "Selectors"), x.m(lt, l, "Selectors"), "Names"), x.strs(names[:n]...), "the selectors of the columns")
				for i := -2; i <= n+1; i++ {
					v := x.m(lt, l, "ColumnAt", e.intc(i))
					k := fmt.Sprintf("ColumnAt(%d)", i)
					if i < 0 || i >= n {
						x.holds(k, where, x.notNil(x.at(v, 1)), "%s of %d columns is accepted", k, n)
						continue
					}
					x.holds(k+" error", where, x.isNil(x.at(v, 1)), "%s of %d columns is refused", k, n)
					x.same(k, where, x.at(v, 0), cs[i], "%s", k)
				}
				for i, nm := range append(append([]string{}, names[:n]...), "zz") {
					for _, f := range []string{nm, strings.ToLower(nm), strings.ToUpper(nm)} {
						v, w := x.m(lt, l, "LookupColumn", e.str(f)), x.m(lt, l, "LookupIndexOfColumn", e.str(f))
						if i == n {
							x.holds("LookupColumn "+f, where, x.isErr(x.at(v, 1), qryPkg, "ErrNotFound"), "the unknown column %s is found", f)
							x.holds("LookupIndexOfColumn "+f, where, x.isErr(x.at(w, 1), qryPkg, "ErrNotFound"), "the unknown column %s has a position", f)
							continue
						}
						x.same("LookupColumn "+f, where, v, e.tuple(cs[i], e.Nil), "LookupColumn(%s)", f)
						x.same("LookupIndexOfColumn "+f, where, w, e.tuple(e.intc(i), e.Nil), "LookupIndexOfColumn(%s)", f)
					}
				}
			}
			r.scenario(fmt.Sprintf("list of %d columns", n), func(x *X) { colList(x, x.qNamed(names[:n]...)) })
			for at := 0; at < n && n > 1; at++ {
				at := at
				forCols(func(tag string, s qSpec) {
					for _, plain := range []bool{false, true} {
						plain := plain
						r.scenario(fmt.Sprintf("list of %d columns, the %d one%s, others defined %v", n, at, tag, !plain), func(x *X) {
							var cs []*T
							for i := 0; i < n; i++ {
								q := qSpec{name: names[i], def: !plain}
								if i == at {
									q.def, q.lit, q.fx = s.def, s.lit, s.fx
								}
								c, _, _, _ := x.qColumn(q)
								cs = append(cs, c)
							}
							colList(x, cs)
						})
					}
				})
			}
			for _, mix := range []bool{false, true} {
				mix := mix
				r.scenario(fmt.Sprintf("list of %d indexes, mixed %v", n, mix), func(x *X) {
					lt, it := x.typ(qryPkg, "Indexes"), x.typ(qryPkg, "Index")
					is := x.qIndexes(names[:n]...)
					if mix {
						is = x.qMixedIndexes(names[:n]...)
					}
					l := x.slice(is...)
					x.same("IndexNames", where, x.m(lt, l, "IndexNames"), x.strs(names[:n]...), "the index names")
					for i, nm := range append(append([]string{}, names[:n]...), "zz") {
						for _, f := range []string{nm, strings.ToLower(nm), strings.ToUpper(nm)} {
							v, w := x.m(lt, l, "LookupIndex", e.str(f)), x.m(lt, l, "LookupIndexOfIndex", e.str(f))
							if i == n {
								x.holds("LookupIndex "+f, where, x.isErr(x.at(v, 1), qryPkg, "ErrNotFound"), "the unknown index %s is found", f)
								x.holds("LookupIndexOfIndex "+f, where, x.isErr(x.at(w, 1), qryPkg, "ErrNotFound"), "the unknown index %s has a position", f)
								continue
							}
							x.same("LookupIndex "+f, where, v, e.tuple(is[i], e.Nil), "LookupIndex(%s)", f)
							x.same("LookupIndexOfIndex "+f, where, w, e.tuple(e.intc(i), e.Nil), "LookupIndexOfIndex(%s)", f)
						}
					}
					for i, ix := range is {
						if mix {
							x.same(fmt.Sprint("Columns ", i), where, x.m(x.typ(qryPkg, "Columns"), x.m(it, ix, "Columns"), "Names"), x.strs([]string{"c0", "c1", "c2"}[:i%3]...), "the columns of an index")
							continue
						}
						x.same(fmt.Sprint("Name ", i), where, x.m(it, ix, "Name"), e.str(names[i]), "the name of an index")
						x.same(fmt.Sprint("Type ", i), where, x.m(it, ix, "Type"), x.pkgConst(qryPkg, "SecondaryIndex"), "the type of an index")
						x.same(fmt.Sprint("Columns ", i), where, x.m(x.typ(qryPkg, "Columns"), x.m(it, ix, "Columns"), "Names"), x.strs(fmt.Sprintf("c%d", i)), "the columns of an index")
					}
				})
			}
			r.scenario(fmt.Sprintf("list of %d tables", n), func(x *X) {
				lt := x.typ(qryPkg, "TableList")
				var ts []*T
				var full []string
				for i, nm := range names[:n] {
					o := x.slice()
					fl := nm
					if i == 1 {
						o, fl = x.slice(x.fn(qryPkg, "WithTableSchema", e.str("Sch"))), "Sch."+nm
					}
					ts, full = append(ts, x.fn(qryPkg, "NewTableWith", e.str(nm), o)), append(full, fl)
				}
				l := x.slice(ts...)
				x.same("TableNames", where, x.m(lt, l, "TableNames"), x.strs(full...), "the table names")
				x.same("String", where, x.m(lt, l, "String"), e.str(strings.Join(full, ", ")), "the rendering of a table list")
				for i, nm := range append(append([]string{}, names...), "zz", "") {
					for _, f := range []string{nm, strings.ToLower(nm), strings.ToUpper(nm)} {
						for _, m := range []string{"HasTable", "HasTableName"} {
							x.same(m+" "+f, where, x.m(lt, l, m, x.strs(f)), e.boolc(i < n), "%s(%s)", m, f)
							x.same(m+" or "+f, where, x.m(lt, l, m, x.strs("none", f)), e.boolc(i < n), "%s(none, %s)", m, f)
						}
					}
				}
				x.same("HasSchemaTable", where, x.m(lt, l, "HasSchemaTable", x.strs("none", "sch")), e.boolc(n > 1), "HasSchemaTable(none, sch)")
				x.same("HasSchemaTable other", where, x.m(lt, l, "HasSchemaTable", x.strs("id")), e.False, "HasSchemaTable(id)")
				for i, t := range ts {
					tt := x.typ(qryPkg, "Table")
					x.same(fmt.Sprint("name ", i), where, x.m(tt, t, "TableName"), e.str(names[i]), "the table name")
					sc := ""
					if i == 1 {
						sc = "Sch"
					}
					x.same(fmt.Sprint("schema ", i), where, x.m(tt, t, "SchemaName"), e.str(sc), "the schema name")
					x.same(fmt.Sprint("full ", i), where, x.m(tt, t, "FullTableName"), e.str(full[i]), "the full name")
					for _, o := range full {
						x.same(fmt.Sprint("is full ", i, o), where, x.m(tt, t, "IsFullTableName", e.str(strings.ToUpper(o))), e.boolc(o == full[i]), "IsFullTableName(%s) of %s", o, full[i])
					}
				}
			})
		}
		near := []string{"", "i", "idx", " id", "id ", "`id`", "t.id", "name-1", "name", "*"}
		r.scenario("near misses of names", func(x *X) {
			cl, il, tl := x.typ(qryPkg, "Columns"), x.typ(qryPkg, "Indexes"), x.typ(qryPkg, "TableList")
			cs, is, ts := x.slice(x.qNamed("id", "name_1")...), x.slice(x.qIndexes("id", "name_1")...), x.qTables("id", "name_1")
			for _, n := range near {
				x.holds("LookupColumn "+n, where, x.isErr(x.at(x.m(cl, cs, "LookupColumn", e.str(n)), 1), qryPkg, "ErrNotFound"), "the unknown column %q is found", n)
				x.holds("LookupIndexOfColumn "+n, where, x.isErr(x.at(x.m(cl, cs, "LookupIndexOfColumn", e.str(n)), 1), qryPkg, "ErrNotFound"), "the unknown column %q has a position", n)
				x.holds("LookupIndex "+n, where, x.isErr(x.at(x.m(il, is, "LookupIndex", e.str(n)), 1), qryPkg, "ErrNotFound"), "the unknown index %q is found", n)
				x.holds("LookupIndexOfIndex "+n, where, x.isErr(x.at(x.m(il, is, "LookupIndexOfIndex", e.str(n)), 1), qryPkg, "ErrNotFound"), "the unknown index %q has a position", n)
				x.same("HasTable "+n, where, x.m(tl, ts, "HasTable", x.strs(n)), e.False, "HasTable(%q)", n)
				x.same("HasTableName "+n, where, x.m(tl, ts, "HasTableName", x.strs(n)), e.False, "HasTableName(%q)", n)
				tt := x.typ(qryPkg, "Table")
				t := x.qTable("id.id")
				x.same("IsTableName "+n, where, x.m(tt, t, "IsTableName", e.str(n)), e.False, "IsTableName(%q) of id.id", n)
				x.same("IsSchemaName "+n, where, x.m(tt, t, "IsSchemaName", e.str(n)), e.False, "IsSchemaName(%q) of id.id", n)
				x.same("IsFullTableName "+n, where, x.m(tt, t, "IsFullTableName", e.str(n)), e.False, "IsFullTableName(%q) of id.id", n)
				x.same("IsName "+n, where, x.m(ct(x), x.qNamed("id")[0], "IsName", e.str(n)), e.False, "IsName(%q) of id", n)
			}
		})
		r.scenario("elements of one name", func(x *X) {
			cs, is := x.qNamed("b", "a", "A", "a", "a"), x.qIndexes("b", "a", "A", "a", "a")
			for _, f := range []string{"a", "A"} {
				x.same("LookupColumn "+f, where, x.m(x.typ(qryPkg, "Columns"), x.slice(cs...), "LookupColumn", e.str(f)), e.tuple(cs[1], e.Nil), "the first column %s", f)
				x.same("LookupIndexOfColumn "+f, where, x.m(x.typ(qryPkg, "Columns"), x.slice(cs...), "LookupIndexOfColumn", e.str(f)), e.tuple(e.intc(1), e.Nil), "the position of the first column %s", f)
				x.same("LookupIndex "+f, where, x.m(x.typ(qryPkg, "Indexes"), x.slice(is...), "LookupIndex", e.str(f)), e.tuple(is[1], e.Nil), "the first index %s", f)
				x.same("LookupIndexOfIndex "+f, where, x.m(x.typ(qryPkg, "Indexes"), x.slice(is...), "LookupIndexOfIndex", e.str(f)), e.tuple(e.intc(1), e.Nil), "the position of the first index %s", f)
			}
			nm := []string{"b", "a", "A", "a", "a"}
			x.same("Names", where, x.m(x.typ(qryPkg, "Columns"), x.slice(cs...), "Names"), x.strs(nm...), "the names")
			x.same("selectors", where, x.m(x.typ(qryPkg, "Selectors"), x.slice(cs...), "Names"), x.strs(nm...), "the names of the selectors")
			x.listIs("selected columns", where, x.m(x.typ(qryPkg, "Selectors"), x.slice(cs...), "Columns"), cs, "the columns of the selectors")
			x.same("IndexNames", where, x.m(x.typ(qryPkg, "Indexes"), x.slice(is...), "IndexNames"), x.strs(nm...), "the index names")
			x.same("TableNames", where, x.m(x.typ(qryPkg, "TableList"), x.qTables("s.a", "a", "A", "s.a"), "TableNames"), x.strs("s.a", "a", "A", "s.a"), "the table names")
		})
		r.scenario("a long list", func(x *X) {
			var nm []string
			for i := 0; i < 24; i++ {
				nm = append(nm, fmt.Sprintf("c%d", 23-i))
			}
			cs, is := x.qNamed(nm...), x.qIndexes(nm...)
			l, il := x.slice(cs...), x.slice(is...)
			lt := x.typ(qryPkg, "Columns")
			x.same("Len", where, x.m(lt, l, "Len"), e.intc(24), "the length")
			x.same("Names", where, x.m(lt, l, "Names"), x.strs(nm...), "the names")
			x.same("IndexNames", where, x.m(x.typ(qryPkg, "Indexes"), il, "IndexNames"), x.strs(nm...), "the index names")
			for _, i := range []int{0, 1, 7, 8, 9, 15, 16, 17, 22, 23} {
				x.same(fmt.Sprint("LookupColumn ", i), where, x.m(lt, l, "LookupColumn", e.str(strings.ToUpper(nm[i]))), e.tuple(cs[i], e.Nil), "the column %d", i)
				x.same(fmt.Sprint("LookupIndexOfColumn ", i), where, x.m(lt, l, "LookupIndexOfColumn", e.str(nm[i])), e.tuple(e.intc(i), e.Nil), "the position of column %d", i)
				x.same(fmt.Sprint("ColumnAt ", i), where, x.m(lt, l, "ColumnAt", e.intc(i)), e.tuple(cs[i], e.Nil), "the column at %d", i)
				x.same(fmt.Sprint("LookupIndex ", i), where, x.m(x.typ(qryPkg, "Indexes"), il, "LookupIndex", e.str(nm[i])), e.tuple(is[i], e.Nil), "the index %d", i)
			}
			x.holds("unknown", where, x.isErr(x.at(x.m(lt, l, "LookupColumn", e.str("c24")), 1), qryPkg, "ErrNotFound"), "an unknown column is found")
			x.holds("past", where, x.notNil(x.at(x.m(lt, l, "ColumnAt", e.intc(24)), 1)), "a column past the end is found")
		})
		r.scenario("a table in a schema", func(x *X) {
			for i, o := range [][]*T{
				{x.fn(qryPkg, "WithSchemaName", e.str("Sch")), x.fn(qryPkg, "WithSchemaColumns", x.slice(x.qNamed("A", "b")...))},
				{x.fn(qryPkg, "WithSchemaColumns", x.slice(x.qNamed("A", "b")...)), x.fn(qryPkg, "WithSchemaName", e.str("Sch"))},
			} {
				sc := x.fn(qryPkg, "NewSchemaWith", e.str("Tbl"), x.slice(o...))
				t := x.typ(qryPkg, "Schema")
				k := fmt.Sprint(i)
				x.same("SchemaName"+k, where, x.m(t, sc, "SchemaName"), e.str("Sch"), "the schema name")
				x.same("TableName"+k, where, x.m(t, sc, "TableName"), e.str("Tbl"), "the table name")
				x.same("FullTableName"+k, where, x.m(t, sc, "FullTableName"), e.str("Sch.Tbl"), "the full table name")
				x.same("Selectors"+k, where, x.m(x.typ(qryPkg, "Selectors"), x.m(t, sc, "Selectors"), "Names"), x.strs("A", "b"), "the selectors")
				x.same("Columns"+k, where, x.m(x.typ(qryPkg, "Columns"), x.m(t, sc, "Columns"), "Names"), x.strs("A", "b"), "the columns")
				x.same("Indexes"+k, where, x.m(t, sc, "Indexes"), x.slice(), "the indexes")
			}
		})
		r.scenario("indexes", func(x *X) {
			it := x.typ(qryPkg, "Index")
			for _, nm := range [][]string{{"ID"}, {"b", "A"}, {"x_y", "Z", "w"}} {
				cs := x.qNamed(nm...)
				k := strings.Join(nm, "_")
				pi := x.fn(qryPkg, "NewPrimaryIndexWith", x.slice(cs...))
				x.same("name "+k, where, x.m(it, pi, "Name"), e.str(k), "the name of a primary index")
				x.same("type "+k, where, x.m(it, pi, "Type"), x.pkgConst(qryPkg, "PrimaryIndex"), "the type of a primary index")
				x.listIs("columns "+k, where, x.m(it, pi, "Columns"), cs, "the columns of a primary index")
				si := x.fn(qryPkg, "NewSecondaryIndexWith", e.str("Ix"), x.slice(cs...))
				x.same("secondary name "+k, where, x.m(it, si, "Name"), e.str("Ix"), "the name of a secondary index")
				x.same("secondary type "+k, where, x.m(it, si, "Type"), x.pkgConst(qryPkg, "SecondaryIndex"), "the type of a secondary index")
				x.listIs("secondary columns "+k, where, x.m(it, si, "Columns"), cs, "the columns of a secondary index")
			}
		})
		r.scenario("definitions", func(x *X) {
			dt := x.typ(qryPkg, "ColumnDef")
			n := x.intSym("n")
			d := x.fn(qryPkg, "NewDataDef", x.pkgConst(qryPkg, "CharType"), n)
			x.same("type", where, x.m(dt, d, "DataType"), x.pkgConst(qryPkg, "CharType"), "the type of a definition")
			x.same("size", where, x.m(dt, d, "DataTypeSize"), n, "the size of a definition")
			x.same("constraint", where, x.m(dt, d, "Constraint"), x.pkgConst(qryPkg, "ConstraintNone"), "the constraint of a definition")
			u := x.fn(qryPkg, "NewUnknownDataDef")
			x.same("unknown", where, x.m(dt, u, "DataType"), x.pkgConst(qryPkg, "UnknownData"), "the type of an unknown definition")
			for _, c := range []struct {
				strs []string
				typ  string
				n    int64
			}{
				{[]string{"INT"}, "IntType", -1}, {[]string{"varchar", "(", "255", ")"}, "VarCharType", 255}, {[]string{"Char", "(", "1000", ")"}, "CharType", 1000},
				{[]string{"VARCHAR", "(", "70000", ")"}, "VarCharType", 70000}, {[]string{"DECIMAL", "(", "10,2", ")"}, "DecimalType", 10}, {[]string{"TEXT", "(", "0", ")"}, "TextType", 0},
			} {
				k := strings.Join(c.strs, " ")
				v := x.fn(qryPkg, "NewDataDefFromStrings", x.strs(c.strs...))
				x.holds("strings "+k, where, x.isNil(x.at(v, 1)), "the definition %s is refused", k)
				x.same("strings type "+k, where, x.m(dt, x.at(v, 0), "DataType"), x.pkgConst(qryPkg, c.typ), "the type of %s", k)
				x.same("strings size "+k, where, x.m(dt, x.at(v, 0), "DataTypeSize"), e.intc(int(c.n)), "the size of %s", k)
				w := x.fn(qryPkg, "NewDataDefFrom", e.str(c.strs[0]), e.intc(int(c.n)))
				x.holds("from "+k, where, x.isNil(x.at(w, 1)), "the type %s is refused", c.strs[0])
				x.same("from type "+k, where, x.m(dt, x.at(w, 0), "DataType"), x.pkgConst(qryPkg, c.typ), "the type of %s", k)
				x.same("from size "+k, where, x.m(dt, x.at(w, 0), "DataTypeSize"), e.intc(int(c.n)), "the size of %s", k)
			}
			for _, l := range [][]string{{}, {"NOTYPE"}, {"VARCHAR", "(", "x", ")"}, {""}} {
				v := x.fn(qryPkg, "NewDataDefFromStrings", x.strs(l...))
				x.holds("refused "+strings.Join(l, " "), where, x.notNil(x.at(v, 1)), "the definition %q is accepted", l)
			}
		})
		r.scenario("literals", func(x *X) {
			lt := types.NewPointer(x.typ(qryPkg, "Literal"))
			str := func(s string) *T { return e.iface(types.Typ[types.String], e.str(s)) }
			l := x.fn(qryPkg, "NewLiteralWith", str("abc"), x.slice())
			x.same("value", where, x.m(lt, l, "Value"), str("abc"), "the value of a literal")
			x.same("type", where, x.m(lt, l, "ValueType"), x.pkgConst(qryPkg, "UnknownLiteral"), "the type of a literal")
			x.same("has", where, x.m(lt, l, "HasValue"), e.True, "HasValue of a literal")
			x.same("asterisk", where, x.m(lt, l, "IsAsterisk"), e.False, "IsAsterisk of abc")
			x.same("equal nil", where, x.m(lt, l, "Equal", e.Nil), e.False, "whether abc equals NULL")
			l2 := x.m(lt, l, "SetValue", str("*"))
			x.same("set", where, x.m(lt, l, "Value"), str("*"), "the value after SetValue")
			x.same("chain", where, l2, l, "SetValue returns the literal")
			x.same("type kept", where, x.m(lt, l, "ValueType"), x.pkgConst(qryPkg, "UnknownLiteral"), "the type after SetValue")
			x.m(lt, l, "SetValueType", x.pkgConst(qryPkg, "StringLiteral"))
			x.same("set type", where, x.m(lt, l, "ValueType"), x.pkgConst(qryPkg, "StringLiteral"), "the type after SetValueType")
			x.same("value kept", where, x.m(lt, l, "Value"), str("*"), "the value after SetValueType")
			n := x.fn(qryPkg, "NewLiteralWith", e.Nil, x.slice())
			x.same("null", where, x.m(lt, n, "Value"), e.Nil, "the value of the null literal")
			x.same("null has", where, x.m(lt, n, "HasValue"), e.True, "HasValue of the null literal")
			x.same("null equal", where, x.m(lt, n, "Equal", str("")), e.False, "whether NULL equals the empty string")
			for _, a := range []string{"HasValue", "IsAsterisk", "IsPlaceHolder"} {
				x.same("none "+a, where, x.m(lt, e.Nil, a), e.False, "%s of no literal", a)
			}
			x.same("none value", where, x.m(lt, e.Nil, "Value"), e.Nil, "the value of no literal")
		})
		r.scenario("conditions", func(x *X) {
			cp, ap, op := types.NewPointer(x.typ(qryPkg, "CmpExpr")), types.NewPointer(x.typ(qryPkg, "AndExpr")), types.NewPointer(x.typ(qryPkg, "OrExpr"))
			lit := x.qLit("1")
			col := x.qNamed("a")[0]
			for _, o := range []struct{ fn, op string }{{"NewEQWith", "EQ"}, {"NewNEQWith", "NEQ"}, {"NewLTWith", "LT"}, {"NewGTWith", "GT"}, {"NewLEWith", "LE"}, {"NewGEWith", "GE"}} {
				c := x.fn(qryPkg, o.fn, col, lit)
				x.same("operator "+o.op, where, x.m(cp, c, "Operator"), x.pkgConst(qryPkg, o.op), "the operator of %s", o.fn)
				x.same("left "+o.op, where, x.m(cp, c, "Left"), col, "the left side of %s", o.fn)
				x.same("right "+o.op, where, x.m(cp, c, "Right"), lit, "the right side of %s", o.fn)
			}
			a, b := x.qCmp("EQ", "a", "1"), x.qCmp("LT", "b", "2")
			an, or := x.fn(qryPkg, "NewAndExpr", a, b), x.fn(qryPkg, "NewOrExpr", a, b)
			x.same("and left", where, x.m(ap, an, "Left"), a, "the left side of AND")
			x.same("and right", where, x.m(ap, an, "Right"), b, "the right side of AND")
			x.same("or left", where, x.m(op, or, "Left"), a, "the left side of OR")
			x.same("or right", where, x.m(op, or, "Right"), b, "the right side of OR")
			ct := x.typ(qryPkg, "Condition")
			for i, c := range []*T{a, x.wrap(an), x.wrap(or)} {
				w := x.qCond(c)
				x.same(fmt.Sprint("expr ", i), where, x.m(ct, w, "Expr"), c, "the expression of a condition")
				x.same(fmt.Sprint("has ", i), where, x.m(ct, w, "HasConditions"), e.True, "HasConditions of a condition")
			}
		})
		r.scenario("statements with all parts", func(x *X) {
			acc := func(iface string, v *T, m string, want *T) {
				x.same(iface+"."+m, where, x.m(x.typ(qryPkg, iface), v, m), want, "%s of %s", m, iface)
			}
			kind := func(iface string, v *T, c string) { acc(iface, v, "StatementType", x.pkgConst(qryPkg, c)) }
			w := x.qCond(x.qCmp("EQ", "a", "1"))
			sel, from := x.slice(x.qNamed("a", "b")...), x.qTables("s.t", "u")
			os := []*T{x.fn(qryPkg, "NewOrderWith", e.str("o1"), x.pkgConst(qryPkg, "OrderDesc")), x.fn(qryPkg, "NewOrderWith", e.str("O2"), x.pkgConst(qryPkg, "OrderAsc")), x.fn(qryPkg, "NewOrderWith", e.str("o3"), x.pkgConst(qryPkg, "OrderNone"))}
			ob := x.fn(qryPkg, "NewOrderByWith", x.slice(os...))
			off, lim := x.uintSym("offset"), x.uintSym("limit")
			st := x.wrap(x.fn(qryPkg, "NewSelectWith", sel, from, w, x.slice(x.fn(qryPkg, "WithSelectOrderBy", ob), x.fn(qryPkg, "WithSelectLimit", off, lim), x.fn(qryPkg, "WithSelectGroupBy", e.str("G")))))
			kind("Select", st, "SelectStatement")
			acc("Select", st, "Selectors", sel)
			acc("Select", st, "From", from)
			acc("Select", st, "Where", w)
			l := x.m(x.typ(qryPkg, "Select"), st, "Limit")
			acc("Limit", l, "Limit", lim)
			acc("Limit", l, "Offset", off)
			acc("GroupBy", x.m(x.typ(qryPkg, "Select"), st, "GroupBy"), "ColumnName", e.str("G"))
			x.listIs("orders", where, x.m(x.typ(qryPkg, "OrderBy"), x.m(x.typ(qryPkg, "Select"), st, "OrderBy"), "Orders"), os, "the orders of SELECT")
			for i, o := range []struct{ n, t string }{{"o1", "OrderDesc"}, {"O2", "OrderAsc"}, {"o3", "OrderNone"}} {
				k := fmt.Sprint("order ", i)
				ot := x.typ(qryPkg, "Order")
				x.same(k+" column", where, x.m(ot, os[i], "ColumnName"), e.str(o.n), "the column of an order")
				x.same(k+" type", where, x.m(ot, os[i], "Type"), x.pkgConst(qryPkg, o.t), "the type of an order")
				x.same(k+" desc", where, x.m(ot, os[i], "IsDesc"), e.boolc(o.t == "OrderDesc"), "IsDesc of an order")
				x.same(k+" asc", where, x.m(ot, os[i], "IsAsc"), e.boolc(o.t == "OrderAsc"), "IsAsc of an order")
				x.same(k+" none", where, x.m(ot, os[i], "IsNone"), e.boolc(o.t == "OrderNone"), "IsNone of an order")
			}
			r1, r2 := x.slice(x.qVal("a", "1"), x.qVal("b", "2")), x.slice(x.qVal("a", "3"), x.qVal("b", "4"))
			tb := x.qTable("s.t")
			ins := x.fn(qryPkg, "NewInsertWith", tb, x.slice(r1, r2))
			kind("Insert", ins, "InsertStatement")
			acc("Insert", ins, "TableName", e.str("t"))
			acc("Insert", ins, "Columns", r1)
			acc("Insert", ins, "Values", x.slice(r1, r2))
			up := x.fn(qryPkg, "NewUpdateWith", tb, r1, w)
			kind("Update", up, "UpdateStatement")
			acc("Update", up, "TableName", e.str("t"))
			acc("Update", up, "Columns", r1)
			acc("Update", up, "Where", w)
			de := x.fn(qryPkg, "NewDeleteWith", tb, w, x.slice())
			kind("Delete", de, "DeleteStatement")
			acc("Delete", de, "TableName", e.str("t"))
			acc("Delete", de, "Where", w)
			acc("Delete", de, "HasConditions", e.True)
			acc("Delete", x.fn(qryPkg, "NewDeleteWith", tb, x.qCond(nil), x.slice()), "HasConditions", e.False)
			cs, is := x.qNamed("a", "b"), x.qIndexes("i1", "i2")
			sc := x.fn(qryPkg, "NewSchemaWith", e.str("t"), x.slice(x.fn(qryPkg, "WithSchemaColumns", x.slice(cs...)), x.fn(qryPkg, "WithSchemaIndexes", x.slice(is...))))
			for _, b := range []bool{false, true} {
				ctb := x.fn(qryPkg, "NewCreateTableWith", sc, x.ifne(b))
				kind("CreateTable", ctb, "CreateTableStatement")
				acc("CreateTable", ctb, "Schema", sc)
				acc("CreateTable", ctb, "TableName", e.str("t"))
				acc("CreateTable", ctb, "IfNotExists", e.boolc(b))
				ci := x.fn(qryPkg, "NewCreateIndexWith", sc, x.ifne(b))
				kind("CreateIndex", ci, "CreateIndexStatement")
				acc("CreateIndex", ci, "TableName", e.str("t"))
				acc("CreateIndex", ci, "Index", is[0])
				acc("CreateIndex", ci, "IfNotExists", e.boolc(b))
				cd := x.fn(qryPkg, "NewCreateDatabaseWith", e.str("db"), x.ifne(b))
				kind("CreateDatabase", x.wrap(cd), "CreateDatabaseStatement")
				acc("CreateDatabase", x.wrap(cd), "DatabaseName", e.str("db"))
				acc("CreateDatabase", x.wrap(cd), "IfNotExists", e.boolc(b))
				dd := x.wrap(x.fn(qryPkg, "NewDropDatabaseWith", e.str("db"), x.ife(b)))
				kind("DropDatabase", dd, "DropDatabaseStatement")
				acc("DropDatabase", dd, "DatabaseName", e.str("db"))
				acc("DropDatabase", dd, "IfExists", e.boolc(b))
				di := x.fn(qryPkg, "NewDropIndexWith", e.str("t"), e.str("ix"), x.ife(b))
				kind("DropIndex", di, "DropIndexStatement")
				acc("DropIndex", di, "TableName", e.str("t"))
				acc("DropIndex", di, "IndexName", e.str("ix"))
				acc("DropIndex", di, "IfExists", e.boolc(b))
				dt := x.wrap(x.fn(qryPkg, "NewDropTableWith", from, x.ife(b)))
				kind("DropTable", dt, "DropTableStatement")
				acc("DropTable", dt, "Tables", from)
				acc("DropTable", dt, "IfExists", e.boolc(b))
			}
			tr := x.wrap(x.fn(qryPkg, "NewTruncateWith", from))
			kind("Truncate", tr, "TruncateStatement")
			acc("Truncate", tr, "Tables", from)
			us := x.wrap(x.fn(qryPkg, "NewUseWith", e.str("db")))
			kind("Use", us, "UseStatement")
			acc("Use", us, "DatabaseName", e.str("db"))
			va := x.wrap(x.fn(qryPkg, "NewVacuumWith", x.qTable("t")))
			kind("Vacuum", va, "VacuumStatement")
			acc("Vacuum", va, "TableName", e.str("t"))
			ad := x.wrap(x.fn(qryPkg, "NewAlterDatabaseWith", e.str("d1"), e.str("d2")))
			kind("AlterDatabase", ad, "AlterDatabaseStatement")
			acc("AlterDatabase", ad, "DatabaseName", e.str("d1"))
			acc("Database", x.m(x.typ(qryPkg, "AlterDatabase"), ad, "RenameTo"), "DatabaseName", e.str("d2"))
			for _, c := range []struct{ fn, iface, k string }{{"NewBegin", "Begin", "BeginStatement"}, {"NewCommit", "Commit", "CommitStatement"}, {"NewRollback", "Rollback", "RollbackStatement"}} {
				kind(c.iface, x.wrap(x.fn(qryPkg, c.fn)), c.k)
			}
			for _, f := range []struct{ s, c string }{{"csv", "CopyFormatCSV"}, {"TEXT", "CopyFormatText"}, {"Binary", "CopyFormatBinary"}} {
				cp := x.fn(qryPkg, "NewCopyWith", e.str("t"), e.str("src.csv"), x.slice(x.fn(qryPkg, "WithCopyColumns", x.slice(cs...)), x.fn(qryPkg, "WithCopyFormat", e.str(f.s))))
				kind("Copy", x.wrap(cp), "CopyStatement")
				acc("Copy", x.wrap(cp), "TableName", e.str("t"))
				acc("Copy", x.wrap(cp), "Columns", x.slice(cs...))
				pt := types.NewPointer(e.atypes[cp.id])
				x.same("Copy.Source", where, x.m(pt, cp, "Source"), e.str("src.csv"), "the source of COPY")
				x.same("Copy.Format "+f.s, where, x.m(pt, cp, "Format"), x.pkgConst(qryPkg, f.c), "the format %s of COPY", f.s)
			}
			// actions of ALTER TABLE
			nt := x.qTable("s.n")
			at := x.typ(qryPkg, "AlterTable")
			for i, o := range []struct {
				opt  *T
				m    string
				want []*T
			}{
				{x.fn(qryPkg, "WithAlterTableRenameTo", nt), "RenameTo", []*T{nt}}, {x.fn(qryPkg, "WithAlterTableRenameColumn", cs[0], cs[1]), "RenameColumns", []*T{cs[0], cs[1]}},
				{x.fn(qryPkg, "WithAlterTableAddColumn", cs[0]), "AddColumn", cs[:1]}, {x.fn(qryPkg, "WithAlterTableDropColumn", cs[1]), "DropColumn", cs[1:]},
				{x.fn(qryPkg, "WithAlterTableAddIndex", is[0]), "AddIndex", is[:1]}, {x.fn(qryPkg, "WithAlterTableDropIndex", is[1]), "DropIndex", is[1:]},
			} {
				al := x.fn(qryPkg, "NewAlterTableWith", e.str("t"), x.slice(o.opt))
				kind("AlterTable", al, "AlterTableStatement")
				acc("AlterTable", al, "TableName", e.str("t"))
				for _, m := range []string{"RenameTo", "RenameColumns", "AddColumn", "DropColumn", "AddIndex", "DropIndex"} {
					n := 1
					if m == "RenameColumns" {
						n = 2
					}
					v := x.m(at, al, m)
					x.same(fmt.Sprint("alter ", i, m), where, x.at(v, n), e.boolc(m == o.m), "whether ALTER has %s after %s was given", m, o.m)
					if m == o.m {
						for j, wv := range o.want {
							x.same(fmt.Sprint("alter ", i, m, j), where, x.at(v, j), wv, "%s of ALTER", m)
						}
					}
				}
			}
		})
		r.scenario("table schema names", func(x *X) {
			sc := x.fn(qryPkg, "NewSchemaWith", e.str("tbl"), x.slice())
			t := x.typ(qryPkg, "Schema")
			x.same("SchemaName", where, x.m(t, sc, "SchemaName"), e.str(""), "the schema name of a table without schema")
			x.same("TableName", where, x.m(t, sc, "TableName"), e.str("tbl"), "the table name")
			x.same("FullTableName", where, x.m(t, sc, "FullTableName"), e.str("tbl"), "the full table name")
			x.same("Selectors", where, x.m(x.typ(qryPkg, "Selectors"), x.m(t, sc, "Selectors"), "Len"), e.intc(0), "the selectors of a table without columns")
		})
		// selector lists: combinations of columns, executors and aggregates
		kinds := []string{"col", "ABS", "SUM"}
		var lists [][]string
		for _, a := range kinds {
			lists = append(lists, []string{a})
			for _, b := range kinds {
				lists = append(lists, []string{a, b})
			}
		}
		lists = append(lists, nil, []string{"SUM", "col", "ABS"}, []string{"col", "ABS", "MAX"}, []string{"ABS", "ABS", "COUNT"})
		for _, ks := range lists {
			ks := ks
			r.scenario("selectors "+strings.Join(ks, " "), func(x *X) {
				lt := x.typ(qryPkg, "Selectors")
				ft := x.typ(fnPkg, "Function")
				var ss, fs, ex []*T
				var nms []string
				has := map[string]bool{}
				for i, k := range ks {
					if k == "col" {
						ss = append(ss, x.qNamed(fmt.Sprintf("c%d", i))[0])
						nms = append(nms, fmt.Sprintf("c%d", i))
						continue
					}
					f := x.fnCall(k, "a")
					ss, fs = append(ss, f), append(fs, f)
					nms = append(nms, k+"(a)")
					has[k] = true
					if k == "ABS" {
						ex = append(ex, f)
					}
				}
				aggr := has["SUM"] || has["MAX"] || has["COUNT"]
				l := x.slice(ss...)
				x.same("Len", where, x.m(lt, l, "Len"), e.intc(len(ks)), "the length")
				x.same("Names", where, x.m(lt, l, "Names"), x.strs(nms...), "the names")
				x.same("String", where, x.m(lt, l, "String"), e.str(strings.Join(nms, ", ")), "the rendering")
				x.same("HasFunction", where, x.m(lt, l, "HasFunction"), e.boolc(len(fs) > 0), "HasFunction")
				x.same("HasAggregator", where, x.m(lt, l, "HasAggregator"), e.boolc(aggr), "HasAggregator")
				x.same("HasExecutor", where, x.m(lt, l, "HasExecutor"), e.boolc(has["ABS"]), "HasExecutor")
				x.same("Functions", where, x.m(lt, l, "Functions"), x.slice(fs...), "the functions")
				exs := x.m(lt, l, "Executors")
				x.holds("Executors error", where, x.isNil(x.at(exs, 1)), "the executors are refused")
				x.same("Executors", where, e.seqLen(e.contentOf(x.st, x.at(exs, 0))), e.intc(len(ex)), "the number of executors")
				for _, k := range []string{"ABS", "SUM", "MAX", "COUNT", "MIN"} {
					for _, f := range []string{k} {
						v := x.m(lt, l, "LookupFunction", e.str(f))
						if !has[k] {
							x.holds("LookupFunction "+f, where, x.notNil(x.at(v, 1)), "the function %s is found", f)
							continue
						}
						x.holds("LookupFunction "+f, where, x.isNil(x.at(v, 1)), "the function %s is not found", f)
						x.same("LookupFunction name "+f, where, x.m(ft, x.at(v, 0), "Name"), e.str(k), "the function found for %s", f)
					}
				}
				x.same("IsAsterisk", where, x.m(lt, l, "IsAsterisk"), e.boolc(len(ks) == 0), "IsAsterisk")
			})
		}
		r.scenario("asterisk", func(x *X) {
			l := x.slice(x.qNamed("*")...)
			x.same("selectors", where, x.m(x.typ(qryPkg, "Selectors"), l, "IsAsterisk"), e.True, "IsAsterisk of *")
			x.same("columns", where, x.m(x.typ(qryPkg, "Columns"), l, "IsAsterisk"), e.True, "IsAsterisk of *")
			l2 := x.slice(x.qNamed("*", "a")...)
			x.same("selectors 2", where, x.m(x.typ(qryPkg, "Selectors"), l2, "IsAsterisk"), e.False, "IsAsterisk of *, a")
			x.same("selector", where, x.m(x.typ(qryPkg, "Selector"), x.qNamed("*")[0], "IsAsterisk"), e.True, "IsAsterisk of the selector *")
			x.same("value", where, x.m(ct(x), x.qVal("a", "'*'"), "IsAsterisk"), e.False, "IsAsterisk of a column with the value '*'")
			x.same("placeholder", where, x.m(ct(x), x.qVal("a", "?"), "IsPlaceHolder"), e.True, "IsPlaceHolder of ?")
			x.same("placeholder text", where, x.m(ct(x), x.qVal("a", "'?'"), "IsPlaceHolder"), e.False, "IsPlaceHolder of the string '?'")
			x.same("placeholder other", where, x.m(ct(x), x.qVal("a", "1"), "IsPlaceHolder"), e.False, "IsPlaceHolder of 1")
			x.same("columns with value", where, x.m(x.typ(qryPkg, "Columns"), x.slice(x.qVal("*", "1")), "IsAsterisk"), e.True, "IsAsterisk of a column * with a value")
			x.same("columns 2", where, x.m(x.typ(qryPkg, "Columns"), l2, "IsAsterisk"), e.False, "IsAsterisk of *, a")
		})
		// statements without optional parts
		r.scenario("empty statements", func(x *X) {
			cond := x.fn(qryPkg, "NewCondition")
			tbl := x.fn(qryPkg, "NewTableWith", e.str("t"), x.slice())
			sel := x.fn(qryPkg, "NewSelectWith", x.slice(), x.slice(tbl), cond, x.slice())
			st := x.typ(qryPkg, "Select")
			sel = x.wrap(sel)
			x.same("limit", where, x.m(x.typ(qryPkg, "Limit"), x.m(st, sel, "Limit"), "Limit"), e.intc(0), "the limit of SELECT without LIMIT")
			x.same("offset", where, x.m(x.typ(qryPkg, "Limit"), x.m(st, sel, "Limit"), "Offset"), e.intc(0), "the offset of SELECT without LIMIT")
			x.same("group", where, x.m(x.typ(qryPkg, "GroupBy"), x.m(st, sel, "GroupBy"), "ColumnName"), e.str(""), "the grouping of SELECT without GROUP BY")
			x.same("order", where, x.m(x.typ(qryPkg, "OrderBy"), x.m(st, sel, "OrderBy"), "Orders"), x.slice(), "the order of SELECT without ORDER BY")
			x.same("where", where, x.m(x.typ(qryPkg, "Condition"), x.m(st, sel, "Where"), "HasConditions"), e.False, "the condition of SELECT without WHERE")
			x.same("aggr", where, x.m(st, sel, "HasAggregator"), e.False, "HasAggregator")
			x.same("exec", where, x.m(st, sel, "HasExecutor"), e.False, "HasExecutor")
			x.m(st, sel, "String")
			ins := x.fn(qryPkg, "NewInsertWith", tbl, x.slice())
			it := x.typ(qryPkg, "Insert")
			x.same("insert", where, x.m(it, ins, "Columns"), x.slice(), "the columns of an INSERT without rows")
			x.m(it, ins, "String")
			vac := x.wrap(x.fn(qryPkg, "NewVacuum"))
			vt := x.typ(qryPkg, "Vacuum")
			x.same("vacuum", where, x.m(vt, vac, "TableName"), e.str(""), "the table of VACUUM without one")
			x.m(vt, vac, "String")
			sc := x.fn(qryPkg, "NewSchemaWith", e.str("t"), x.slice())
			ci := x.fn(qryPkg, "NewCreateIndexWith", sc, x.fn(qryPkg, "NewIfNotExistsWith", e.False))
			x.same("create index", where, x.m(x.typ(qryPkg, "CreateIndex"), ci, "Index"), e.Nil, "the index of CREATE INDEX without one")
			x.m(x.typ(qryPkg, "CreateIndex"), ci, "String")
			al := x.fn(qryPkg, "NewAlterTableWith", e.str("t"), x.slice())
			at := x.typ(qryPkg, "AlterTable")
			for _, m := range []string{"RenameTo", "AddColumn", "DropColumn", "AddIndex", "DropIndex"} {
				x.same(m, where, x.at(x.m(at, al, m), 1), e.False, "%s of ALTER without action", m)
			}
			x.same("RenameColumns", where, x.at(x.m(at, al, "RenameColumns"), 2), e.False, "RenameColumns of ALTER without action")
			x.m(at, al, "String")
		})
	})
}

// forCols calls f for every combination of column parts.
func forCols(f func(tag string, s qSpec)) {
	for m := 0; m < 8; m++ {
		s := qSpec{name: "col", def: m&1 != 0, lit: m&2 != 0, fx: m&4 != 0}
		tag := ""
		if s.def {
			tag += " with definition"
		}
		if s.lit {
			tag += " with value"
		}
		if s.fx {
			tag += " with function"
		}
		f(tag, s)
	}
}

// wrap makes an interface value of an object.
func (x *X) wrap(v *T) *T {
	if v.op == OAlloc {
		if t, ok := x.e.atypes[v.id]; ok {
			return x.e.iface(types.NewPointer(t), v)
		}
	}
	return v
}
