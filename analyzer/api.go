package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// X evaluates public operations of the repository on given inputs, in one
// abstract state, and compares what they return with what is expected.
type X struct {
	r    *Run
	e    *E
	st   *State
	name string // scenario, prefix of obligation keys
	dead bool
}

// scenario runs f on a fresh state; obligations about run-time failures raised
// by the operations are reported at its end.
func (r *Run) scenario(name string, f func(x *X)) {
	r.e.mapHit = false
	r.scenario1(name, f)
	if r.e.mapHit {
		// some map was ranged over: the language leaves the order open
		r.e.revMaps = true
		r.scenario1(name+" (other map order)", f)
		r.e.revMaps = false
	}
}

func (r *Run) scenario1(name string, f func(x *X)) {
	e := r.e
	saved, ord, quiet := e.oblig, e.oblOrd, e.quiet
	e.oblig, e.oblOrd, e.quiet = map[string]*Obligation{}, nil, 0
	api := e.api
	e.api = true
	stack := e.stack
	e.stack = nil
	e.steps = 0
	e.views = nil
	for k := range e.active {
		delete(e.active, k)
	}
	e.deadline = time.Now().Add(60 * time.Second)
	x := &X{r: r, e: e, st: e.newState(), name: name}
	r.count("scenarios", 1)
	func() {
		defer func() {
			if p := recover(); p != nil {
				if p == errAnchor || p == errPanicked {
					return
				}
				r.unknown("%s: the analysis stopped: %v", name, p)
			}
		}()
		f(x)
	}()
	e.deadline = time.Time{}
	for _, k := range e.oblOrd {
		o := e.oblig[k]
		if o.bad == e.False {
			r.obl++
			r.decided++
			continue
		}
		r.never(fmt.Sprintf("%s|panic|%s|%s", name, o.kind, shortFn(o.fn)), e.prog.where(o.pos), o.bad, "%s: %s may panic: %s", name, shortFn(o.fn), o.what)
	}
	e.oblig, e.oblOrd, e.quiet, e.api, e.stack = saved, ord, quiet, api, stack
}

var errAnchor = fmt.Errorf("missing entry point")

// fn calls a public function; variadic arguments are given as one slice.
func (x *X) fn(pkg, name string, args ...*T) *T {
	f := x.e.prog.fn(pkg, name)
	if f == nil {
		x.r.anchor(pkg + "." + name)
		panic(errAnchor)
	}
	return x.callFn(f, args...)
}

func (x *X) callFn(f *ssa.Function, args ...*T) *T {
	args = append([]*T{}, args...)
	for i, a := range args {
		// an object passed where an interface is expected
		if i < len(f.Params) && types.IsInterface(f.Params[i].Type()) && a.op == OAlloc {
			if t, ok := x.e.atypes[a.id]; ok {
				args[i] = x.e.iface(types.NewPointer(t), a)
			}
		}
	}
	return x.e.callFunc(x.st, f, args, nil, 0)
}

// at selects a result.
func (x *X) at(v *T, i int) *T { return x.e.extract(v, i) }

// typ is a named type of the repository.
func (x *X) typ(pkg, name string) types.Type {
	t := x.e.prog.typ(pkg, name)
	if t == nil {
		x.r.anchor(pkg + "." + name)
		panic(errAnchor)
	}
	return t
}

// method names the position of a method of an interface.
func (x *X) method(t types.Type, name string) string {
	if o, _, _ := types.LookupFieldOrMethod(t, true, nil, name); o != nil {
		return x.e.prog.where(o.Pos())
	}
	return shortType(t)
}

// m calls a method of a value of (static) type t.
func (x *X) m(t types.Type, v *T, name string, args ...*T) *T {
	if types.IsInterface(t) && v.op != OSym {
		// an object that should be there: a caller would fail here
		var missing func(v *T) *T
		missing = func(v *T) *T {
			switch v.op {
			case ONil:
				return x.e.True
			case OIte:
				return x.e.ite(v.args[0], missing(v.args[1]), missing(v.args[2]))
			}
			return x.e.False
		}
		if n := x.e.sat(x.e.and(x.st.pc, missing(x.e.restrict(v, x.st.pc)))); n != x.e.False {
			x.holds("nil "+name, x.method(t, name), x.e.not(n), "the %s asked for its %s is nil", shortType(t), name)
			if n == x.e.True {
				panic(errPanicked)
			}
		}
	}
	r, rt := x.e.callMethod(x.st, t, v, name, args...)
	if r == nil || rt == nil && r.op == OTop {
		x.r.anchor(t.String() + "." + name)
		panic(errAnchor)
	}
	return r
}

func (x *X) slice(vs ...*T) *T {
	var ps []*T
	for _, v := range vs {
		ps = append(ps, x.e.elem(x.e.True, v))
	}
	return x.e.newSlice(x.st, x.e.seq(ps...))
}

// spare is a list that is the beginning of a longer one, its second result.
func (x *X) spare(vs, rest []*T) (*T, *T) {
	own := x.slice(append(append([]*T{}, vs...), rest...)...)
	v := x.slice(vs...)
	x.e.alias[v.args[0].id] = own.args[0]
	x.e.views = append(x.e.views, view{own.args[0], v.args[0], 0})
	return v, own
}

func (x *X) strs(ss ...string) *T {
	return x.e.strSlice(x.st, ss)
}

var anyType = types.NewInterfaceType(nil, nil).Complete()

func (x *X) anySym(name string) *T { return x.e.sym(name, anyType) }

func (x *X) strSym(name string) *T { return x.e.sym(name, types.Typ[types.String]) }

func (x *X) intSym(name string) *T { return x.e.sym(name, types.Typ[types.Int]) }

func (x *X) fltSym(name string) *T { return x.e.sym(name, types.Typ[types.Float64]) }

func (x *X) uintSym(name string) *T { return x.e.sym(name, types.Typ[types.Uint]) }

// vals are the elements of a slice value as cases: every condition with the
// list it selects. nil when the list has no known shape.
type listCase struct {
	g  *T
	vs []*T
}

func (x *X) cases(v *T) []listCase {
	e := x.e
	if v.op == OIte {
		var out []listCase
		for _, l := range e.leaves(v) {
			cs := x.cases(l.v)
			if cs == nil {
				return nil
			}
			for _, c := range cs {
				if g := e.and(l.g, c.g); g != e.False {
					out = append(out, listCase{g, c.vs})
				}
			}
		}
		return out
	}
	if v.op == OIface {
		v = v.args[0]
	}
	seq := e.contentOf(x.st, v)
	return x.seqCases(seq)
}

func (x *X) seqCases(seq *T) []listCase {
	e := x.e
	out := []listCase{{e.True, nil}}
	for _, p := range seq.args {
		var alts []listCase // what p contributes
		switch {
		case p.op == OElem:
			alts = []listCase{{p.args[0], []*T{p.args[1]}}, {e.not(p.args[0]), nil}}
		case p.op == OSpread && p.args[1].op == OSeq:
			in := x.seqCases(p.args[1])
			if in == nil {
				return nil
			}
			for _, c := range in {
				alts = append(alts, listCase{e.and(p.args[0], c.g), c.vs})
			}
			alts = append(alts, listCase{e.not(p.args[0]), nil})
		default:
			return nil
		}
		var next []listCase
		for _, o := range out {
			for _, a := range alts {
				g := e.and(o.g, a.g)
				if g == e.False {
					continue
				}
				next = append(next, listCase{g, append(append([]*T{}, o.vs...), a.vs...)})
			}
		}
		if len(next) > 256 {
			return nil
		}
		out = next
	}
	return out
}

// deepEq is the condition that two values are equal, slices and maps by content.
func (x *X) deepEq(a, b *T) *T { return x.deq(a, b, 0) }

func (x *X) deq(a, b *T, d int) *T {
	e := x.e
	if a == b {
		return e.True
	}
	if d > 12 {
		return e.eq(a, b)
	}
	if a.op == OIte || b.op == OIte {
		return e.lift2(a, b, func(p, q *T) *T { return x.deq(p, q, d+1) })
	}
	if a.op == OIface && b.op == OIface {
		if e.tkey(a.typ) != e.tkey(b.typ) {
			return e.False
		}
		return x.deq(a.args[0], b.args[0], d+1)
	}
	if a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args) || a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		r := e.True
		for i := range a.args {
			r = e.and(r, x.deq(a.args[i], b.args[i], d+1))
		}
		return r
	}
	sl := func(t *T) bool { return t.op == OSlice || t.op == OSeq || t.op == ONil }
	if (a.op == OSlice || a.op == OSeq) && sl(b) || (b.op == OSlice || b.op == OSeq) && sl(a) {
		ca, cb := x.cases(a), x.cases(b)
		if ca == nil || cb == nil {
			return e.eq(a, b)
		}
		r := e.False
		for _, p := range ca {
			for _, q := range cb {
				if len(p.vs) != len(q.vs) {
					continue
				}
				c := e.and(p.g, q.g)
				for i := range p.vs {
					if c == e.False {
						break
					}
					c = e.and(c, x.deq(p.vs[i], q.vs[i], d+1))
				}
				r = e.or(r, c)
			}
		}
		return r
	}
	if m, ok := x.mapOf(a); ok {
		if n, ok := x.mapOf(b); ok {
			if e.distinctKeys(m) && e.distinctKeys(n) {
				if len(m.args) != len(n.args) {
					return e.False
				}
				r := e.True
				for i := 0; i+1 < len(m.args); i += 2 {
					hit := e.False
					for j := 0; j+1 < len(n.args); j += 2 {
						hit = e.or(hit, e.and(e.eq(m.args[i], n.args[j]), x.deq(m.args[i+1], n.args[j+1], d+1)))
					}
					r = e.and(r, hit)
				}
				return r
			}
		}
	}
	return e.eq(a, b)
}

func (x *X) mapOf(v *T) (*T, bool) {
	if v.op == OMap {
		return v, v.name == ""
	}
	if v.op == OAlloc {
		if c, ok := x.st.heap[v.id]; ok && c.op == OMap && c.name == "" {
			return c, true
		}
	}
	return nil, false
}

// same is the obligation that got equals want whenever the scenario reaches
// this point.
func (x *X) same(key, where string, got, want *T, format string, a ...any) {
	bad := x.e.and(x.st.pc, x.e.not(x.deepEq(got, want)))
	x.r.never(x.name+"|"+key, where, bad, "%s: %s (got %s, expected %s)", x.name, fmt.Sprintf(format, a...), x.show(got), x.show(want))
}

// holds is the obligation that c is true whenever the scenario reaches here.
func (x *X) holds(key, where string, c *T, format string, a ...any) {
	x.r.never(x.name+"|"+key, where, x.e.and(x.st.pc, x.e.not(c)), "%s: %s", x.name, fmt.Sprintf(format, a...))
}

func (x *X) show(v *T) string {
	if v.op == OIface {
		return x.show(v.args[0])
	}
	if v.op == OSlice || v.op == ONil {
		if cs := x.cases(v); len(cs) == 1 {
			var ss []string
			for _, w := range cs[0].vs {
				ss = append(ss, x.show(w))
			}
			return "[" + strings.Join(ss, " ") + "]"
		}
	}
	return clip(v)
}

// pos names the source position of a public function or method.
func (x *X) pos(pkg, name string) string {
	if f := x.e.prog.fn(pkg, name); f != nil {
		return x.e.prog.where(f.Pos())
	}
	return pkg + "." + name
}

// isNil and notNil are conditions about a result.
func (x *X) isNil(v *T) *T  { return x.e.eq(v, x.e.Nil) }
func (x *X) notNil(v *T) *T { return x.e.not(x.e.eq(v, x.e.Nil)) }

// global is the value of a package-level variable after initialisation.
func (x *X) global(pkg, name string) *T {
	p := x.e.prog.ssaPkgs[modPath+"/"+pkg]
	if p != nil {
		if g, ok := p.Members[name].(*ssa.Global); ok {
			return x.e.load(x.st, x.e.globalPtr(g))
		}
	}
	x.r.anchor(pkg + "." + name)
	panic(errAnchor)
}

// setElem writes an element of a slice, as its holder could.
func (x *X) setElem(s *T, i int, v *T) {
	p := x.e.lift(s, func(y *T) *T {
		if y.op == OSlice {
			return y.args[0]
		}
		return y
	})
	x.e.store(x.st, x.e.lift(p, func(q *T) *T {
		return x.e.mk(&T{op: OIndexAddr, args: []*T{q, x.e.intc(i)}})
	}), v)
}

// pkgConst is a declared constant.
func (x *X) pkgConst(pkg, name string) *T {
	c := x.r.p.constant(pkg, name)
	if c == nil {
		x.r.anchor(pkg + "." + name)
		panic(errAnchor)
	}
	return x.e.constant(c, nil)
}

// newMap is an empty map.
func (x *X) newMap() *T {
	m := x.e.newAlloc("map", types.NewMap(types.Typ[types.String], anyType))
	x.st.heap[m.id] = x.e.mk(&T{op: OMap})
	return m
}
