package main

import (
	"fmt"
	"go/types"
	"strings"
)

func registerNetModels(e *E) {
	reg := func(name string, m model) {
		old := e.models[name]
		e.models[name] = func(e *E, st *State, c *callCtx) (*T, bool) {
			if e.api {
				if r, ok := m(e, st, c); ok {
					return r, true
				}
			}
			if old != nil {
				return old(e, st, c)
			}
			return nil, false
		}
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "invoke:Lock", "invoke:Unlock"} {
		reg(n, func(e *E, st *State, c *callCtx) (*T, bool) { return e.tuple(), true })
	}
	reg("context.Background", func(e *E, st *State, c *callCtx) (*T, bool) {
		a := e.newAlloc("ctx", nil)
		return e.iface(types.NewPointer(types.Typ[types.Int]), a), true
	})
	id := func(e *E, st *State, c *callCtx) (*T, bool) {
		e.uuidN++
		return e.str(fmt.Sprintf("uuid-%d", e.uuidN)), true
	}
	reg("github.com/google/uuid.New", id)
	reg("(github.com/google/uuid.UUID).String", func(e *E, st *State, c *callCtx) (*T, bool) { return c.args[0], true })
	// the connection handed in by the server: every Close is counted
	reg("invoke:Close", func(e *E, st *State, c *callCtx) (*T, bool) {
		recv := c.args[0]
		if recv.op != OSym || !strings.HasPrefix(recv.name, "netconn") {
			return nil, false
		}
		cell := e.mocks[recv.name]
		if cell == nil {
			return nil, false
		}
		old := st.heap[cell.id]
		n := e.lift(old, func(k *T) *T { i, _ := k.isInt(); return e.intc(int(i) + 1) })
		st.heap[cell.id] = n
		if !e.mockFails[recv.name] {
			return e.Nil, true
		}
		r := e.closeErr(recv)
		return r, true
	})
	for _, n := range []string{"UUID", "ID"} {
		n := n
		reg("invoke:"+n, func(e *E, st *State, c *callCtx) (*T, bool) {
			if c.args[0].op != OSym || !strings.HasPrefix(c.args[0].name, "userconn") {
				return nil, false
			}
			v := e.mocks[n+c.args[0].name]
			return v, v != nil
		})
	}
	for _, n := range []string{"Span", "StartSpan", "FinishSpan"} {
		n := n
		reg("invoke:"+n, func(e *E, st *State, c *callCtx) (*T, bool) {
			if c.args[0].op != OSym || !strings.HasPrefix(c.args[0].name, "tracer") {
				return nil, false
			}
			r := e.app("trace:"+n, c.args...)
			if n != "Span" {
				return e.atom(r), true
			}
			return r, true
		})
	}
}

// closeErr is the error of a connection that does not close.
func (e *E) closeErr(recv *T) *T {
	return e.appT(errorType, "wrap", e.str("cannot close "+recv.name), e.Nil)
}

type netConn struct {
	sym, cell, conn, id, uuid *T
}

func (x *X) netConn(name string, opts ...*T) *netConn {
	e := x.e
	c := &netConn{}
	c.sym = e.sym("netconn-"+x.name+name, nil)
	c.cell = e.newAlloc("closed", types.Typ[types.Int])
	x.st.heap[c.cell.id] = e.intc(0)
	if e.mocks == nil {
		e.mocks = map[string]*T{}
		e.mockFails = map[string]bool{}
	}
	e.mocks[c.sym.name] = c.cell
	delete(e.mockFails, c.sym.name)
	c.conn = x.fn("sql/net", "NewConnWith", c.sym, x.slice(opts...))
	ct := x.typ("sql/net", "Conn")
	c.id, c.uuid = x.m(ct, c.conn, "ID"), x.m(ct, c.conn, "UUID")
	return c
}

// userConn is a connection the caller implements, with the given UUID and ID.
func (x *X) userConn(name, uuid string, id int) *netConn {
	e := x.e
	c := &netConn{sym: e.sym("userconn-"+x.name+name, nil), id: e.intc(id), uuid: e.str(uuid)}
	if e.mocks == nil {
		e.mocks = map[string]*T{}
		e.mockFails = map[string]bool{}
	}
	e.mocks["UUID"+c.sym.name], e.mocks["ID"+c.sym.name] = c.uuid, c.id
	c.conn = c.sym
	return c
}

func (x *X) connID(n int) *T { return x.fn("sql/net", "WithConnID", x.e.intc(n)) }

func (c *netConn) closes(x *X) *T { return x.st.heap[c.cell.id] }

func init() {
	register("C22", func(r *Run) {
		e := r.e
		np := "sql/net"
		r.rule("evaluate histories of the connection manager over up to three connections with equal and different IDs: after every step each registered connection is found by its UUID and by its ID and no other is, Conns lists exactly the registered ones, refused operations change nothing, and Close closes every connection")
		where := "sql/net/conn_manager_impl.go"
		mt := func(x *X) types.Type { return x.typ(np, "ConnManager") }
		// check compares the manager with the list of registered connections.
		check := func(x *X, m *T, step string, in []*netConn, out []*netConn) {
			for i, c := range in {
				for _, l := range []struct {
					f string
					k *T
				}{{"LookupConnByUUID", c.uuid}, {"LookupConnByUID", c.id}} {
					v := x.m(mt(x), m, l.f, l.k)
					x.same(fmt.Sprint(step, l.f, i, " found"), where, x.at(v, 1), e.True, "after %s, %s of registered connection %d", step, l.f, i)
					x.same(fmt.Sprint(step, l.f, i), where, x.at(v, 0), c.conn, "after %s, the connection %s of connection %d finds", step, l.f, i)
				}
			}
			for i, c := range out {
				v := x.m(mt(x), m, "LookupConnByUUID", c.uuid)
				x.same(fmt.Sprint(step, "absent uuid", i), where, x.at(v, 1), e.False, "after %s, connection %d is not registered; LookupConnByUUID of it", step, i)
				used := false
				for _, d := range in {
					used = used || d.id == c.id
				}
				if !used {
					v = x.m(mt(x), m, "LookupConnByUID", c.id)
					x.same(fmt.Sprint(step, "absent id", i), where, x.at(v, 1), e.False, "after %s, connection %d is not registered; LookupConnByUID of it", step, i)
				}
			}
			cs := x.m(mt(x), m, "Conns")
			for _, lc := range x.cases(cs) {
				ok := len(lc.vs) == len(in)
				for _, c := range in {
					n := 0
					for _, v := range lc.vs {
						if e.eq(v, c.conn) == e.True {
							n++
						}
					}
					ok = ok && n == 1
				}
				if ok {
					r.ok("%s Conns", step)
				} else {
					x.holds(step+" Conns", where, e.not(lc.g), "after %s, Conns lists %d connections, not the %d registered ones", step, len(lc.vs), len(in))
				}
			}
		}
		type cs = []*netConn
		mgr := func(x *X) *T { return x.fn(np, "NewConnManager") }
		add := func(x *X, m *T, c *netConn) *T { return x.m(mt(x), m, "AddConn", c.conn) }
		for _, ids := range [][3]int{{1, 2, 3}, {0, 7, 5}, {1, 1<<32 + 1, 1<<16 + 1}, {1 << 62, 1<<62 + 256, 0}} {
			ids := ids
			three := func(x *X) (a, b, c *netConn) {
				return x.netConn("a", x.connID(ids[0])), x.netConn("b", x.connID(ids[1])), x.netConn("c", x.connID(ids[2]))
			}
			r.scenario(fmt.Sprintf("add %v", ids), func(x *X) {
				a, b, c := three(x)
				m := mgr(x)
				check(x, m, "creation", nil, cs{a, b, c})
				x.holds("add a", where, x.isNil(add(x, m, a)), "a new connection is refused")
				check(x, m, "adding one", cs{a}, cs{b, c})
				x.holds("add b", where, x.isNil(add(x, m, b)), "a new connection is refused")
				x.holds("add c", where, x.isNil(add(x, m, c)), "a new connection is refused")
				check(x, m, "adding three", cs{a, b, c}, nil)
				x.holds("add again", where, x.isErr(add(x, m, b), np, "ErrExist"), "a registered connection is added again without ErrExist")
				check(x, m, "a refused addition", cs{a, b, c}, nil)
			})
			r.scenario(fmt.Sprintf("same ID %v", ids), func(x *X) {
				a, b := x.netConn("a", x.connID(ids[0])), x.netConn("b", x.connID(ids[1]))
				d := x.netConn("d", x.connID(ids[0]))
				m := mgr(x)
				add(x, m, a)
				add(x, m, b)
				x.holds("add", where, x.isErr(add(x, m, d), np, "ErrExist"), "a second connection with the same ID is accepted")
				check(x, m, "a refused addition", cs{a, b}, cs{d})
				x.m(mt(x), m, "RemoveConn", d.conn)
				check(x, m, "removing the refused connection", cs{a, b}, cs{d})
				x.m(mt(x), m, "RemoveConnByUUID", d.uuid)
				check(x, m, "removing the refused connection by UUID", cs{a, b}, cs{d})
				x.m(mt(x), m, "RemoveConn", a.conn)
				check(x, m, "removing the first", cs{b}, cs{a, d})
				x.holds("re-add", where, x.isNil(add(x, m, d)), "a connection with a free ID is refused")
				check(x, m, "adding it again", cs{b, d}, cs{a})
				x.m(mt(x), m, "RemoveConn", a.conn)
				check(x, m, "removing the first again", cs{b, d}, cs{a})
			})
			for _, how := range []string{"RemoveConn", "RemoveConnByUID", "RemoveConnByUUID"} {
				for k := 0; k < 3; k++ {
					how, k := how, k
					r.scenario(fmt.Sprintf("%s of %d of %v", how, k, ids), func(x *X) {
						a, b, c := three(x)
						all := cs{a, b, c}
						m := mgr(x)
						arg := func(c *netConn) *T {
							return map[string]*T{"RemoveConn": c.conn, "RemoveConnByUID": c.id, "RemoveConnByUUID": c.uuid}[how]
						}
						for i, c := range all {
							if i != k {
								add(x, m, c)
							}
						}
						in, out := append(append(cs{}, all[:k]...), all[k+1:]...), cs{all[k]}
						x.m(mt(x), m, how, arg(all[k]))
						check(x, m, how+" of an unknown connection", in, out)
						add(x, m, all[k])
						check(x, m, "adding", all, nil)
						v := x.m(mt(x), m, how, arg(all[k]))
						if how == "RemoveConn" {
							x.holds("removed", where, x.isNil(v), "RemoveConn of a registered connection is refused")
						}
						check(x, m, how, in, out)
						x.m(mt(x), m, how, arg(all[k]))
						check(x, m, how+" again", in, out)
						x.holds("re-add", where, x.isNil(add(x, m, all[k])), "adding a removed connection is refused")
						check(x, m, "adding again", all, nil)
						x.same("open", where, all[k].closes(x), e.intc(0), "how often removing a connection closes it")
					})
				}
			}
			r.scenario(fmt.Sprintf("update %v", ids), func(x *X) {
				a, b, c := three(x)
				m := mgr(x)
				add(x, m, a)
				add(x, m, b)
				x.holds("unknown", where, x.isErr(x.m(mt(x), m, "UpdateConn", c.conn, c.conn), np, "ErrNotExist"), "updating an unknown connection is not ErrNotExist")
				check(x, m, "a refused update", cs{a, b}, cs{c})
				x.holds("self", where, x.isNil(x.m(mt(x), m, "UpdateConn", a.conn, a.conn)), "updating a connection with itself is refused")
				check(x, m, "an update with itself", cs{a, b}, cs{c})
				x.holds("taken", where, x.notNil(x.m(mt(x), m, "UpdateConn", a.conn, b.conn)), "updating a connection with another registered one is accepted")
				check(x, m, "a refused update", cs{a, b}, cs{c})
				x.holds("new", where, x.isNil(x.m(mt(x), m, "UpdateConn", a.conn, c.conn)), "updating a connection is refused")
				check(x, m, "an update", cs{c, b}, cs{a})
				x.m(mt(x), m, "RemoveConn", c.conn)
				check(x, m, "removing the updated connection", cs{b}, cs{a, c})
				x.holds("re-add", where, x.isNil(add(x, m, a)), "adding the former connection is refused")
				check(x, m, "adding the former connection", cs{a, b}, cs{c})
			})
			r.scenario(fmt.Sprintf("update to the same ID %v", ids), func(x *X) {
				a, b := x.netConn("a", x.connID(ids[0])), x.netConn("b", x.connID(ids[1]))
				d := x.netConn("d", x.connID(ids[0]))
				m := mgr(x)
				add(x, m, a)
				add(x, m, b)
				x.holds("same id", where, x.isNil(x.m(mt(x), m, "UpdateConn", a.conn, d.conn)), "updating a connection with one of the same ID is refused")
				check(x, m, "an update", cs{d, b}, cs{a})
				x.m(mt(x), m, "RemoveConn", a.conn)
				check(x, m, "removing the former connection", cs{d, b}, cs{a})
				x.m(mt(x), m, "RemoveConnByUID", d.id)
				check(x, m, "removing the updated connection", cs{b}, cs{a, d})
			})
		}
		r.scenario("connections of the caller", func(x *X) {
			a, b := x.userConn("a", "u1", 1), x.userConn("b", "u2", 2)
			sameUUID, sameID, both := x.userConn("c", "u1", 3), x.userConn("d", "u4", 2), x.userConn("e", "u2", 1)
			m := mgr(x)
			x.holds("add", where, x.isNil(add(x, m, a)), "a new connection is refused")
			x.holds("add 2", where, x.isNil(add(x, m, b)), "a new connection is refused")
			check(x, m, "adding two", cs{a, b}, nil)
			x.holds("same uuid", where, x.isErr(add(x, m, sameUUID), np, "ErrExist"), "a second connection with the same UUID is accepted")
			check(x, m, "a refused addition", cs{a, b}, nil)
			x.holds("same id", where, x.isErr(add(x, m, sameID), np, "ErrExist"), "a second connection with the same ID is accepted")
			check(x, m, "a refused addition 2", cs{a, b}, cs{sameID})
			x.holds("both", where, x.isErr(add(x, m, both), np, "ErrExist"), "a connection with the UUID of one and the ID of another is accepted")
			check(x, m, "a refused addition 3", cs{a, b}, nil)
			n := x.userConn("n", "u9", 9)
			x.holds("update of unknown id", where, x.isErr(x.m(mt(x), m, "UpdateConn", sameUUID.conn, n.conn), np, "ErrNotExist"), "updating a connection with a registered UUID and an unknown ID is not ErrNotExist")
			check(x, m, "a refused update", cs{a, b}, cs{n})
			x.holds("update of unknown uuid", where, x.isErr(x.m(mt(x), m, "UpdateConn", sameID.conn, n.conn), np, "ErrNotExist"), "updating a connection with an unknown UUID and a registered ID is not ErrNotExist")
			check(x, m, "a refused update 2", cs{a, b}, cs{n, sameID})
			x.holds("update to another's id", where, x.isErr(x.m(mt(x), m, "UpdateConn", a.conn, sameID.conn), np, "ErrExist"), "updating a connection with one that has the ID of a third is not ErrExist")
			check(x, m, "a refused update 3", cs{a, b}, cs{sameID})
			x.holds("update to the same uuid", where, x.isNil(x.m(mt(x), m, "UpdateConn", a.conn, sameUUID.conn)), "updating a connection with one of the same UUID is refused")
			check(x, m, "an update", cs{sameUUID, b}, nil)
			v := x.m(mt(x), m, "LookupConnByUID", e.intc(1))
			x.same("old id", where, x.at(v, 1), e.False, "after an update, LookupConnByUID of the former ID")
		})
		for nm := 0; nm < 15; nm++ {
			for _, f := range []string{"Close", "Stop"} {
				// n connections, of which those in mask cannot be closed
				n := []int{0, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3}[nm]
				mask := nm - []int{0, 1, 3, 7}[n]
				f := f
				r.scenario(fmt.Sprintf("%s with %d connections, failing %03b", f, n, mask), func(x *X) {
					m := mgr(x)
					var all cs
					for i := 0; i < n; i++ {
						c := x.netConn(fmt.Sprint(i), x.connID(i))
						add(x, m, c)
						all = append(all, c)
						e.mockFails[c.sym.name] = mask&(1<<i) != 0
					}
					x.holds("start", where, x.isNil(x.m(mt(x), m, "Start")), "Start fails")
					check(x, m, "Start", all, nil)
					err := x.m(mt(x), m, f)
					fails := e.False
					for i, c := range all {
						x.same(fmt.Sprint("closed ", i), where, c.closes(x), e.intc(1), "how often connection %d of %d is closed", i, n)
						bad := e.boolc(mask&(1<<i) != 0)
						fails = e.or(fails, bad)
						// a connection that was closed is gone, one that was not is kept
						v := x.m(mt(x), m, "LookupConnByUUID", c.uuid)
						x.same(fmt.Sprint("gone ", i), where, x.at(v, 1), bad, "whether connection %d of %d is still registered", i, n)
						v = x.m(mt(x), m, "LookupConnByUID", c.id)
						x.same(fmt.Sprint("gone id ", i), where, x.at(v, 1), bad, "whether connection %d of %d is still found by its ID", i, n)
					}
					x.same("error", where, x.notNil(err), fails, "whether %s of %d connections reports an error", f, n)
					for i, c := range all {
						if mask&(1<<i) != 0 {
							x.holds(fmt.Sprint("error of ", i), where, e.lift2(err, e.closeErr(c.sym), e.errorsIs), "%s of %d connections does not report the error of connection %d", f, n, i)
						}
					}
					err = x.m(mt(x), m, f)
					x.same("error again", where, x.notNil(err), fails, "whether %s, called again, reports an error", f)
					for i, c := range all {
						want := 1
						if mask&(1<<i) != 0 {
							want = 2
						}
						x.same(fmt.Sprint("closed again ", i), where, c.closes(x), e.intc(want), "how often connection %d of %d is closed by two calls of %s", i, n, f)
					}
				})
			}
		}
		// the connection itself
		where2 := "sql/net/conn_impl.go"
		ct := func(x *X) types.Type { return x.typ(np, "Conn") }
		r.scenario("connection options", func(x *X) {
			db, us, tr := x.strSym("db"), x.strSym("user"), e.sym("tracer1", nil)
			big := x.netConn("big", x.connID(1<<62+1<<32+1))
			x.same("big id", where2, big.id, e.intc(1<<62+1<<32+1), "a large ID")
			c := x.netConn("a", x.fn(np, "WithConnDatabase", db), x.fn(np, "WithConnUser", us), x.connID(42), x.fn(np, "WithConnTracer", tr), x.fn(np, "WithConnSchemas", x.strs("s1", "s2")))
			o := x.netConn("b")
			x.same("db", where2, x.m(ct(x), c.conn, "Database"), db, "the database")
			x.same("user", where2, x.m(ct(x), c.conn, "User"), us, "the user")
			x.same("id", where2, c.id, e.intc(42), "the ID")
			x.same("tracer", where2, x.m(ct(x), c.conn, "SpanContext"), tr, "the span context")
			x.same("schemas", where2, x.m(ct(x), c.conn, "Schemas"), x.strs("s1", "s2"), "the schemas")
			x.same("span", where2, x.m(ct(x), c.conn, "Span"), e.app("trace:Span", tr), "the span")
			x.same("start span", where2, x.m(ct(x), c.conn, "StartSpan", e.str("n")), e.atom(e.app("trace:StartSpan", tr, e.str("n"))), "the started span")
			x.same("finish span", where2, x.m(ct(x), c.conn, "FinishSpan"), e.atom(e.app("trace:FinishSpan", tr)), "the finished span")
			x.holds("uuid", where2, e.not(e.eq(c.uuid, o.uuid)), "two connections have one UUID")
			x.same("uuid again", where2, x.m(ct(x), c.conn, "UUID"), c.uuid, "the UUID asked again")
			x.same("ts again", where2, x.m(ct(x), c.conn, "Timestamp"), x.m(ct(x), c.conn, "Timestamp"), "the time stamp asked again")
			x.holds("context", where2, x.notNil(x.m(ct(x), c.conn, "Context")), "the context is nil")
			x.same("default id", where2, o.id, e.intc(0), "the ID of a connection without one")
			x.same("default db", where2, x.m(ct(x), o.conn, "Database"), e.str(""), "the database of a connection without one")
			x.same("default schemas", where2, x.m(ct(x), o.conn, "Schemas"), x.slice(), "the schemas of a connection without any")
			x.m(ct(x), o.conn, "Span")
			x.m(ct(x), o.conn, "StartSpan", e.str("n"))
			x.m(ct(x), o.conn, "FinishSpan")
		})
		r.scenario("connection state", func(x *X) {
			c, o := x.netConn("a"), x.netConn("b")
			u, d := x.strSym("u"), x.strSym("d")
			x.m(ct(x), c.conn, "SetUser", u)
			x.m(ct(x), c.conn, "SetDatabase", d)
			x.m(ct(x), c.conn, "SetSchemas", x.strs("s1"))
			x.m(ct(x), c.conn, "SetSchemas", x.strs("s2", "s1", "s3", "s2"))
			x.same("user", where2, x.m(ct(x), c.conn, "User"), u, "the user")
			x.same("db", where2, x.m(ct(x), c.conn, "Database"), d, "the database")
			got := x.m(ct(x), c.conn, "Schemas")
			x.same("schemas", where2, got, x.strs("s1", "s2", "s3"), "the schemas")
			x.setElem(got, 0, e.str("zz"))
			x.same("schemas kept", where2, x.m(ct(x), c.conn, "Schemas"), x.strs("s1", "s2", "s3"), "the schemas after the caller changed the list it got")
			x.m(ct(x), c.conn, "SetDatabase", e.str("d2"))
			x.same("db 2", where2, x.m(ct(x), c.conn, "Database"), e.str("d2"), "the database set again")
			x.same("no schemas", where2, x.m(ct(x), c.conn, "Schemas"), x.slice(), "the schemas after another database was set")
			x.same("user kept", where2, x.m(ct(x), c.conn, "User"), u, "the user after the database was set")
			tr := e.sym("tracer2", nil)
			x.m(ct(x), c.conn, "SetSpanContext", tr)
			x.same("span context", where2, x.m(ct(x), c.conn, "SpanContext"), tr, "the span context set")
			x.same("other", where2, x.m(ct(x), o.conn, "User"), e.str(""), "the user of another connection")
			x.same("other schemas", where2, x.m(ct(x), o.conn, "Schemas"), x.slice(), "the schemas of another connection")
		})
		for _, d := range []string{"", "d", "D", "d2"} {
			d := d
			r.scenario(fmt.Sprintf("schemas after database %q was set", d), func(x *X) {
				for i, first := range [][]*T{nil, {x.fn(np, "WithConnDatabase", e.str("d"))}} {
					c := x.netConn(fmt.Sprint("a", i), append(first, x.fn(np, "WithConnSchemas", x.strs("s1", "s2")))...)
					x.m(ct(x), c.conn, "SetDatabase", e.str(d))
					x.same(fmt.Sprint("db ", i), where2, x.m(ct(x), c.conn, "Database"), e.str(d), "the database")
					x.same(fmt.Sprint("schemas ", i), where2, x.m(ct(x), c.conn, "Schemas"), x.slice(), "the schemas after a database was set")
				}
			})
		}
		r.scenario("similar schemas", func(x *X) {
			all := []string{"schema1", "Schema1", "SCHEMA1", "", " schema1", "schema1 ", "schema", "'schema1'"}
			c := x.netConn("a", x.fn(np, "WithConnSchemas", x.strs(all[:1]...)))
			for i := range all {
				x.m(ct(x), c.conn, "SetSchemas", x.strs(all[i:]...))
			}
			x.same("schemas", where2, x.m(ct(x), c.conn, "Schemas"), x.strs(all...), "%d schemas that differ", len(all))
		})
		r.scenario("many schemas", func(x *X) {
			c := x.netConn("a")
			var all []string
			for i := 0; i < 300; i++ {
				all = append(all, fmt.Sprint("schema", i))
			}
			all = append(all, "", "Schema1", "SCHEMA1", " schema1", "schema1 ", "schema", "'schema1'")
			for i := 0; i < len(all); i += 50 {
				x.m(ct(x), c.conn, "SetSchemas", x.strs(all[i:min(i+50, len(all))]...))
			}
			x.same("schemas", where2, x.m(ct(x), c.conn, "Schemas"), x.strs(all...), "%d schemas that differ", len(all))
			x.m(ct(x), c.conn, "SetSchemas", x.strs(all...))
			x.same("again", where2, x.m(ct(x), c.conn, "Schemas"), x.strs(all...), "%d schemas that were set twice", len(all))
		})
		r.scenario("schema list of the caller", func(x *X) {
			given := x.strs("s1", "s2")
			c := x.netConn("a", x.fn(np, "WithConnSchemas", given))
			x.setElem(given, 0, e.str("zz"))
			x.same("schemas", where2, x.m(ct(x), c.conn, "Schemas"), x.strs("s1", "s2"), "the schemas after the caller changed its list")
			more := x.strs("s3")
			x.m(ct(x), c.conn, "SetSchemas", more)
			x.setElem(more, 0, e.str("zz"))
			x.same("schemas 2", where2, x.m(ct(x), c.conn, "Schemas"), x.strs("s1", "s2", "s3"), "the schemas after the caller changed the list it added")
		})
		r.scenario("close", func(x *X) {
			c := x.netConn("a")
			for i := 0; i < 3; i++ {
				x.holds(fmt.Sprint("nil ", i), where2, x.isNil(x.m(ct(x), c.conn, "Close")), "Close number %d fails", i+1)
				x.same(fmt.Sprint("once ", i), where2, c.closes(x), e.intc(1), "how often %d calls of Close close the connection", i+1)
			}
		})
		r.scenario("failing close", func(x *X) {
			c := x.netConn("a")
			e.mockFails[c.sym.name] = true
			x.same("error", where2, x.m(ct(x), c.conn, "Close"), e.closeErr(c.sym), "the result of a Close that fails")
			x.same("tried", where2, c.closes(x), e.intc(1), "how often Close closes the connection")
			x.same("error again", where2, x.m(ct(x), c.conn, "Close"), e.closeErr(c.sym), "the result of a second Close that fails")
			e.mockFails[c.sym.name] = false
			x.holds("closed", where2, x.isNil(x.m(ct(x), c.conn, "Close")), "a Close that succeeds after one that failed is an error")
			x.same("tried again", where2, c.closes(x), e.intc(3), "how often three calls of Close, two of which fail, try to close the connection")
			x.holds("closed again", where2, x.isNil(x.m(ct(x), c.conn, "Close")), "Close of a closed connection fails")
			x.same("once", where2, c.closes(x), e.intc(3), "how often a closed connection is closed")
		})
	})
}
