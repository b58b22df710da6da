package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C32", func(r *Run) {
		e := r.e
		r.rule("evaluate every history of up to six pushes and pops of a stack of arbitrary objects, with a look at the top and the size after each step: objects come back last in, first out, and an empty stack gives nil")
		const pkg = "sql/util"
		depth := 6
		for n := 0; n < 1<<depth; n++ {
			n := n
			var ops []string
			for i := 0; i < depth; i++ {
				ops = append(ops, []string{"push", "pop"}[n>>i&1])
			}
			r.scenario(strings.Join(ops, " "), func(x *X) {
				where := x.pos(pkg, "NewStack")
				s := x.fn(pkg, "NewStack")
				t := types.NewPointer(x.typ(pkg, "Stack"))
				var model []*T
				look := func(k string) {
					x.same(k+" size", where, x.m(t, s, "Size"), e.intc(len(model)), "the number of objects")
					top := e.Nil
					if len(model) > 0 {
						top = model[len(model)-1]
					}
					x.same(k+" top", where, x.m(t, s, "PeekObject"), top, "the top object")
				}
				look("new")
				for i, o := range ops {
					k := fmt.Sprintf("%d %s", i, o)
					if o == "push" {
						v := e.iface(types.Typ[types.String], x.strSym(fmt.Sprintf("o%d", i)))
						x.m(t, s, "PushObject", v)
						model = append(model, v)
					} else {
						want := e.Nil
						if len(model) > 0 {
							want = model[len(model)-1]
							model = model[:len(model)-1]
						}
						x.same(k, where, x.m(t, s, "PopObject"), want, "the popped object")
					}
					look(k)
				}
			})
		}
		r.scenario("forty objects", func(x *X) {
			where := x.pos(pkg, "NewStack")
			s := x.fn(pkg, "NewStack")
			t := types.NewPointer(x.typ(pkg, "Stack"))
			var vs []*T
			for i := 0; i < 40; i++ {
				vs = append(vs, e.iface(types.Typ[types.String], x.strSym(fmt.Sprintf("o%d", i))))
				x.m(t, s, "PushObject", vs[i])
				x.same(fmt.Sprint("size ", i), where, x.m(t, s, "Size"), e.intc(i+1), "the number of objects")
				x.same(fmt.Sprint("peek ", i), where, x.m(t, s, "PeekObject"), vs[i], "the top object")
			}
			for i := 39; i >= 0; i-- {
				x.same(fmt.Sprint("pop ", i), where, x.m(t, s, "PopObject"), vs[i], "the popped object")
				x.same(fmt.Sprint("left ", i), where, x.m(t, s, "Size"), e.intc(i), "the number of objects")
			}
			x.same("empty", where, x.m(t, s, "PopObject"), e.Nil, "the object popped from an empty stack")
		})
		r.scenario("two long stacks", func(x *X) {
			where := x.pos(pkg, "NewStack")
			s, o := x.fn(pkg, "NewStack"), x.fn(pkg, "NewStack")
			t := types.NewPointer(x.typ(pkg, "Stack"))
			var ss, os []*T
			for i := 0; i < 10; i++ {
				ss, os = append(ss, x.anySym(fmt.Sprint("s", i))), append(os, x.anySym(fmt.Sprint("o", i)))
				x.m(t, s, "PushObject", ss[i])
				x.m(t, o, "PushObject", os[i])
			}
			for i := 9; i >= 0; i-- {
				x.same(fmt.Sprint("pop ", i), where, x.m(t, s, "PopObject"), ss[i], "the object popped from the first stack")
				x.same(fmt.Sprint("pop 2 ", i), where, x.m(t, o, "PopObject"), os[i], "the object popped from the second stack")
			}
		})
		r.scenario("objects of every kind", func(x *X) {
			where := x.pos(pkg, "NewStack")
			s := x.fn(pkg, "NewStack")
			t := types.NewPointer(x.typ(pkg, "Stack"))
			list := e.iface(types.NewSlice(anyType), x.slice(e.anyStr("p"), e.anyStr("q")))
			vs := []*T{e.anyStr("a"), e.anyStr("a"), e.Nil, e.Nil, list, e.anyStr(""), e.iface(types.NewSlice(anyType), x.slice()), e.iface(types.Typ[types.Int], e.intc(0)), e.iface(types.Typ[types.Bool], e.False), list, e.Nil, e.anyStr("z")}
			for i, v := range vs {
				x.m(t, s, "PushObject", v)
				x.same(fmt.Sprint("size ", i), where, x.m(t, s, "Size"), e.intc(i+1), "the number of objects")
				x.same(fmt.Sprint("peek ", i), where, x.m(t, s, "PeekObject"), v, "the top object")
			}
			for i := len(vs) - 1; i >= 0; i-- {
				x.same(fmt.Sprint("peek again ", i), where, x.m(t, s, "PeekObject"), vs[i], "the top object")
				x.same(fmt.Sprint("pop ", i), where, x.m(t, s, "PopObject"), vs[i], "the popped object")
				x.same(fmt.Sprint("left ", i), where, x.m(t, s, "Size"), e.intc(i), "the number of objects")
			}
		})
		r.scenario("many objects", func(x *X) {
			where := x.pos(pkg, "NewStack")
			s := x.fn(pkg, "NewStack")
			t := types.NewPointer(x.typ(pkg, "Stack"))
			const n = 1100
			for i := 0; i < n; i++ {
				x.m(t, s, "PushObject", e.iface(types.Typ[types.Int], e.intc(i)))
			}
			for i := n - 1; i >= 0; i-- {
				x.same(fmt.Sprint("pop ", i), where, x.m(t, s, "PopObject"), e.iface(types.Typ[types.Int], e.intc(i)), "the popped object")
			}
			x.same("empty", where, x.m(t, s, "Size"), e.intc(0), "the number of objects")
		})
		r.scenario("two stacks", func(x *X) {
			where := x.pos(pkg, "NewStack")
			s, o := x.fn(pkg, "NewStack"), x.fn(pkg, "NewStack")
			t := types.NewPointer(x.typ(pkg, "Stack"))
			a, b, c := e.anyStr("a"), e.anyStr("b"), e.Nil
			x.m(t, s, "PushObject", a)
			x.m(t, o, "PushObject", b)
			x.m(t, s, "PushObject", c)
			x.same("size", where, x.m(t, s, "Size"), e.intc(2), "the number of objects of the first stack")
			x.same("size 2", where, x.m(t, o, "Size"), e.intc(1), "the number of objects of the second stack")
			x.same("pop 2", where, x.m(t, o, "PopObject"), b, "the object popped from the second stack")
			x.same("pop nil", where, x.m(t, s, "PopObject"), c, "the nil object popped from the first stack")
			x.same("pop", where, x.m(t, s, "PopObject"), a, "the object popped from the first stack")
		})
	})

	register("C33", func(r *Run) {
		r.rule("in the type-checked program, every constant, type and variable that package sql takes from a package of the repository is the one of the same name (ResultSetX is X of package resultset), and NewParser returns a parser of the repository")
		sp := r.p.ssaPkgs[modPath+"/sql"]
		if sp == nil {
			r.anchor("sql")
			return
		}
		homes := []string{qryPkg, rsPkg, "sql/net", "sql/parser"}
		find := func(name string) (types.Object, string) {
			for _, h := range homes {
				p := r.p.ssaPkgs[modPath+"/"+h]
				if p == nil {
					continue
				}
				if o := p.Pkg.Scope().Lookup(name); o != nil && o.Exported() {
					return o, h
				}
			}
			if short, ok := strings.CutPrefix(name, "ResultSet"); ok && short != "" {
				if p := r.p.ssaPkgs[modPath+"/"+rsPkg]; p != nil {
					if o := p.Pkg.Scope().Lookup(short); o != nil {
						return o, rsPkg
					}
				}
			}
			return nil, ""
		}
		sc := sp.Pkg.Scope()
		need := map[string]bool{}
		for _, n := range []string{"EQ", "NEQ", "LT", "LE", "GT", "GE", "IN", "NIN", "DataType", "Constraint", "Function", "FunctionExecutor", "Schema", "Statement", "CreateDatabase", "CreateTable", "AlterDatabase", "AlterTable", "DropDatabase", "DropTable", "Insert", "Select", "Update", "Delete", "Begin", "Commit", "Rollback", "Copy", "Vacuum", "Truncate", "Use", "CreateIndex", "DropIndex", "ResultSetColumn", "ResultSetSchema", "ResultSetRow", "ResultSet", "Conn", "ErrEmptyQuery"} {
			need[n] = true
		}
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			if !o.Exported() {
				continue
			}
			where := r.p.where(o.Pos())
			h, home := find(n)
			delete(need, n)
			switch o := o.(type) {
			case *types.Const:
				if hc, ok := h.(*types.Const); ok {
					r.count("constants", 1)
					r.expect(types.Identical(o.Type(), hc.Type()) && o.Val().ExactString() == hc.Val().ExactString(), "const "+n, where, "sql.%s is not %s.%s", n, home, n)
				}
			case *types.TypeName:
				if !o.IsAlias() {
					continue
				}
				r.count("types", 1)
				if h == nil {
					r.unknown("type %s: no type of that name", n)
					continue
				}
				r.expect(types.Identical(o.Type(), h.Type()), "type "+n, where, "sql.%s is %s, not %s.%s", n, types.TypeString(o.Type(), nil), home, h.Name())
			case *types.Var:
				if h == nil || !strings.HasPrefix(n, "Err") {
					continue
				}
				r.count("errors", 1)
				r.scenario("error "+n, func(x *X) {
					x.same("value", where, x.global("sql", n), x.global(home, n), "sql.%s is %s.%s", n, home, n)
				})
			}
		}
		for n := range need {
			r.anchor("sql." + n)
		}
		r.scenario("parser", func(x *X) {
			v := x.fn("sql", "NewParser")
			x.holds("not nil", x.pos("sql", "NewParser"), x.notNil(v), "NewParser returns a parser")
			if v.op == OIface {
				ok := false
				for _, f := range r.p.parserEntries() {
					if m := r.p.methodNamed(v.typ, "ParseString"); m != nil && m.String() == f {
						ok = true
					}
				}
				r.expect(ok, "parser", x.pos("sql", "NewParser"), "NewParser does not return a parser of the repository")
			}
		})
	})
}
