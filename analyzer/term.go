package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of a value-graph node.
type Op uint8

const (
	OConst     Op = iota
	ONil          // untyped nil
	OSym          // opaque input
	OApp          // pure application name(args)
	OBin          // arithmetic name(args)
	OEq           // atom: args[0] == args[1]
	OLt           // atom: args[0] < args[1]
	OTypeIs       // atom: dynamic type of args[0] is typ
	OIte          // args[0] atom, args[1] hi, args[2] lo
	OAlloc        // heap object (name = unique id)
	OFieldAddr    // args[0] ptr, idx
	OIndexAddr    // args[0] base pointer/slice, args[1] index
	OClosure      // fn + bindings
	OIface        // dynamic type typ, args[0]
	OCat          // string concatenation
	OTuple        //
	OStruct       // typ, fields
	OSlice        // args[0] alloc, args[1] nil condition
	OSeq          // sequence content: parts
	OElem         // guard, value
	OSpread       // guard, opaque sequence
	OLoop         // guard, domain, body seq
	OFill         // guard, length, zero value
	OUpd          // guard, seq, index, value
	OMap          // map content: pairs k,v,k,v...  name!="" => has opaque base args[0]
	OTop          // unknown
)

// T is a hash-consed value-graph node.
type T struct {
	id   int
	op   Op
	name string
	idx  int
	args []*T
	cv   constant.Value
	typ  types.Type
	fn   *ssa.Function
	mask uint64 // subjects of atoms in an Ite DAG
	vars []int  // sorted ids of loop variables (elem/idx/mu) mentioned
	size int
}

// Terms is the hash-consing table.
type Terms struct {
	tab      map[string]*T
	all      []*T
	n        int
	tkeys    map[types.Type]string
	True     *T
	False    *T
	Nil      *T
	iteMemo  map[[3]int]*T
	asmMemo  map[[3]int]*T
	resMemo  map[[2]int]*T
	implied  func(a *T, val bool, b *T) int
	subjects map[int]uint64
	overflow int
}

func newTerms() *Terms {
	ts := &Terms{tab: map[string]*T{}, tkeys: map[types.Type]string{}, iteMemo: map[[3]int]*T{}, asmMemo: map[[3]int]*T{}, resMemo: map[[2]int]*T{}, subjects: map[int]uint64{}}
	ts.True = ts.constant(constant.MakeBool(true), nil)
	ts.False = ts.constant(constant.MakeBool(false), nil)
	ts.Nil = ts.mk(&T{op: ONil})
	return ts
}

func (ts *Terms) tkey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := ts.tkeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	ts.tkeys[t] = k
	return k
}

func (ts *Terms) mk(t *T) *T {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.idx))
	if t.typ != nil {
		b.WriteByte('|')
		b.WriteString(ts.tkey(t.typ))
	}
	if t.cv != nil {
		b.WriteByte('#')
		b.WriteString(t.cv.Kind().String())
		b.WriteString(t.cv.ExactString())
	}
	if t.fn != nil {
		b.WriteString(fmt.Sprintf("%p", t.fn))
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if o, ok := ts.tab[k]; ok {
		return o
	}
	ts.n++
	t.id = ts.n
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if t.op == OIte {
		t.mask = ts.subjMask(t.args[0]) | t.args[1].mask | t.args[2].mask
	}
	var vs []int
	for _, a := range t.args {
		vs = unionInts(vs, a.vars)
	}
	if t.op == OApp && (t.name == "elem" || t.name == "idx") {
		vs = unionInts(vs, []int{t.id})
	}
	if t.op == OSym && strings.HasPrefix(t.name, "mu#") {
		vs = unionInts(vs, []int{t.id})
	}
	t.vars = vs
	ts.tab[k] = t
	ts.all = append(ts.all, t)
	return t
}

func (ts *Terms) byID(k int) *T {
	if k >= 1 && k <= len(ts.all) {
		return ts.all[k-1]
	}
	return nil
}

func unionInts(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			m = append(m, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			m = append(m, b[j])
			j++
		default:
			m = append(m, a[i])
			i++
			j++
		}
	}
	return m
}

func hasVar(t *T, id int) bool {
	i := sort.SearchInts(t.vars, id)
	return i < len(t.vars) && t.vars[i] == id
}

func (ts *Terms) constant(v constant.Value, typ types.Type) *T {
	// constants are compared by value only
	return ts.mk(&T{op: OConst, cv: v})
}
func (ts *Terms) str(s string) *T { return ts.constant(constant.MakeString(s), nil) }
func (ts *Terms) intc(n int) *T   { return ts.constant(constant.MakeInt64(int64(n)), nil) }
func (ts *Terms) boolc(b bool) *T {
	if b {
		return ts.True
	}
	return ts.False
}
func (ts *Terms) sym(name string, typ types.Type) *T {
	return ts.mk(&T{op: OSym, name: name, typ: typ})
}
func (ts *Terms) app(name string, args ...*T) *T {
	return ts.mk(&T{op: OApp, name: name, args: args})
}
func (ts *Terms) appT(typ types.Type, name string, args ...*T) *T {
	return ts.mk(&T{op: OApp, name: name, args: args, typ: typ})
}
func (ts *Terms) iface(typ types.Type, v *T) *T {
	return ts.mk(&T{op: OIface, typ: typ, args: []*T{v}})
}
func (ts *Terms) tuple(a ...*T) *T { return ts.mk(&T{op: OTuple, args: a}) }
func (ts *Terms) strct(typ types.Type, f []*T) *T {
	return ts.mk(&T{op: OStruct, typ: typ, args: f})
}
func (ts *Terms) top(reason string, deps ...*T) *T {
	return ts.mk(&T{op: OTop, name: reason, args: deps})
}

func (t *T) isStr() (string, bool) {
	if t.op == OConst && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *T) isInt() (int64, bool) {
	if t.op == OConst && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

// ---------------------------------------------------------------- decision DAG

func (ts *Terms) subjMask(a *T) uint64 {
	if m, ok := ts.subjects[a.id]; ok {
		return m
	}
	var m uint64
	add := func(x *T) { m |= 1 << (uint(x.id) % 64) }
	switch a.op {
	case OEq, OLt:
		for _, x := range a.args {
			if x.op != OConst && x.op != ONil {
				add(x)
				if x.op == OApp {
					for _, y := range x.args {
						add(y)
					}
				}
			}
		}
	case OTypeIs:
		add(a.args[0])
	case OApp:
		for _, x := range a.args {
			if x.op != OConst {
				add(x)
			}
		}
		add(a)
	default:
		add(a)
	}
	ts.subjects[a.id] = m
	return m
}

func (ts *Terms) atom(a *T) *T {
	if a.op == OConst {
		return a
	}
	if a.op == OIte {
		return a
	}
	return ts.mk(&T{op: OIte, args: []*T{a, ts.True, ts.False}})
}

// mkIte builds a node for atom a, pruning the branches with the literal's
// consequences.
func (ts *Terms) mkIte(a, hi, lo *T) *T {
	hi = ts.assume(hi, a, true)
	lo = ts.assume(lo, a, false)
	if hi == lo {
		return hi
	}
	return ts.mk(&T{op: OIte, args: []*T{a, hi, lo}})
}

func (ts *Terms) assume(f, a *T, val bool) *T {
	if f.op != OIte {
		return f
	}
	if f.mask&ts.subjMask(a) == 0 {
		return f
	}
	k := [3]int{f.id, a.id, 0}
	if val {
		k[2] = 1
	}
	if r, ok := ts.asmMemo[k]; ok {
		return r
	}
	b := f.args[0]
	imp := -1
	if b == a {
		imp = 0
		if val {
			imp = 1
		}
	} else if ts.implied != nil {
		imp = ts.implied(a, val, b)
	}
	var r *T
	switch imp {
	case 1:
		r = ts.assume(f.args[1], a, val)
	case 0:
		r = ts.assume(f.args[2], a, val)
	default:
		h := ts.assume(f.args[1], a, val)
		l := ts.assume(f.args[2], a, val)
		if h == l {
			r = h
		} else {
			r = ts.mk(&T{op: OIte, args: []*T{b, h, l}})
		}
	}
	ts.asmMemo[k] = r
	return r
}

const maxDag = 1 << 22

func topAtom(xs ...*T) *T {
	var m *T
	for _, x := range xs {
		if x.op == OIte && (m == nil || x.args[0].id < m.id) {
			m = x.args[0]
		}
	}
	return m
}

func cof(x, a *T, v bool) *T {
	if x.op == OIte && x.args[0] == a {
		if v {
			return x.args[1]
		}
		return x.args[2]
	}
	return x
}

// ite is the normalised if-then-else over decision DAGs.
func (ts *Terms) ite(c, a, b *T) *T {
	if c == ts.True {
		return a
	}
	if c == ts.False {
		return b
	}
	if a == b {
		return a
	}
	if a == ts.True && b == ts.False {
		return c
	}
	if c.op != OIte {
		if c.op == OTop {
			c = ts.atom(c)
		} else {
			c = ts.atom(c)
		}
		return ts.ite(c, a, b)
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := ts.iteMemo[k]; ok {
		return r
	}
	at := topAtom(c, a, b)
	hi := ts.ite(cof(c, at, true), cof(a, at, true), cof(b, at, true))
	lo := ts.ite(cof(c, at, false), cof(a, at, false), cof(b, at, false))
	r := ts.mkIte(at, hi, lo)
	ts.iteMemo[k] = r
	return r
}

func (ts *Terms) and(a, b *T) *T { return ts.ite(a, b, ts.False) }
func (ts *Terms) or(a, b *T) *T  { return ts.ite(a, ts.True, b) }
func (ts *Terms) not(a *T) *T    { return ts.ite(a, ts.False, ts.True) }

// restrict simplifies f under care set c.
func (ts *Terms) restrict(f, c *T) *T {
	if c == ts.True || c == ts.False || f.op != OIte {
		return f
	}
	if f == c {
		return ts.True
	}
	k := [2]int{f.id, c.id}
	if r, ok := ts.resMemo[k]; ok {
		return r
	}
	ca := c.args[0]
	fa := f.args[0]
	var r *T
	switch {
	case c.args[1] == ts.False:
		r = ts.restrict(ts.assume(f, ca, false), c.args[2])
	case c.args[2] == ts.False:
		r = ts.restrict(ts.assume(f, ca, true), c.args[1])
	case ca == fa:
		h := ts.restrict(f.args[1], c.args[1])
		l := ts.restrict(f.args[2], c.args[2])
		r = ts.mkIte(fa, h, l)
	case ca.id < fa.id:
		r = ts.restrict(f, ts.or(c.args[1], c.args[2]))
	default:
		h := ts.restrict(f.args[1], c)
		l := ts.restrict(f.args[2], c)
		r = ts.mkIte(fa, h, l)
	}
	ts.resMemo[k] = r
	return r
}

// leaf of a decision DAG with its guard.
type leaf struct{ g, v *T }

func (ts *Terms) leaves(v *T) []leaf {
	if v.op != OIte {
		return []leaf{{ts.True, v}}
	}
	m := map[int]*T{}
	var order []*T
	var rec func(x, g *T)
	rec = func(x, g *T) {
		if g == ts.False {
			return
		}
		if x.op != OIte {
			if o, ok := m[x.id]; ok {
				m[x.id] = ts.or(o, g)
			} else {
				m[x.id] = g
				order = append(order, x)
			}
			return
		}
		a := ts.atom(x.args[0])
		rec(x.args[1], ts.and(g, a))
		rec(x.args[2], ts.and(g, ts.not(a)))
	}
	// DAG paths could be exponential; bound by merging guards per node
	// (top-down accumulation in topological order).
	nodes := map[int]*T{}
	guards := map[int]*T{}
	var topo []*T
	var dfs func(x *T)
	seen := map[int]bool{}
	dfs = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		nodes[x.id] = x
		if x.op == OIte {
			dfs(x.args[1])
			dfs(x.args[2])
		}
		topo = append(topo, x)
	}
	dfs(v)
	guards[v.id] = ts.True
	for i := len(topo) - 1; i >= 0; i-- {
		x := topo[i]
		g := guards[x.id]
		if g == nil {
			continue
		}
		if x.op != OIte {
			order = append(order, x)
			m[x.id] = g
			continue
		}
		a := ts.atom(x.args[0])
		for k, ch := range []*T{x.args[1], x.args[2]} {
			gg := ts.and(g, a)
			if k == 1 {
				gg = ts.and(g, ts.not(a))
			}
			if o := guards[ch.id]; o != nil {
				gg = ts.or(o, gg)
			}
			guards[ch.id] = gg
		}
	}
	var out []leaf
	for _, x := range order {
		if m[x.id] != ts.False {
			out = append(out, leaf{m[x.id], x})
		}
	}
	return out
}

// lift applies f to every leaf.
func (ts *Terms) lift(v *T, f func(*T) *T) *T {
	memo := map[int]*T{}
	var rec func(x *T) *T
	rec = func(x *T) *T {
		if x.op != OIte {
			return f(x)
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		h := rec(x.args[1])
		l := rec(x.args[2])
		r := ts.ite(ts.atom(x.args[0]), h, l)
		memo[x.id] = r
		return r
	}
	return rec(v)
}

func (ts *Terms) nleaves(v *T) int {
	if v.op != OIte {
		return 1
	}
	seen := map[int]bool{}
	n := 0
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if x.op != OIte {
			n++
			return
		}
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(v)
	return n
}

// lift2 applies f over the leaves of both arguments (bounded).
func (ts *Terms) lift2(a, b *T, f func(x, y *T) *T) *T {
	if a.op != OIte && b.op != OIte {
		return f(a, b)
	}
	if ts.nleaves(a)*ts.nleaves(b) > 4096 {
		ts.overflow++
		return f(a, b)
	}
	return ts.lift(a, func(x *T) *T { return ts.lift(b, func(y *T) *T { return f(x, y) }) })
}

// ---------------------------------------------------------------- printing

func (t *T) String() string {
	return render(t, 0)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func render(t *T, d int) string {
	if d > 40 {
		return "…"
	}
	r := func(x *T) string { return render(x, d+1) }
	list := func(xs []*T) string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, r(x))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OConst:
		return t.cv.ExactString()
	case ONil:
		return "nil"
	case OSym:
		return "$" + t.name
	case OApp, OBin:
		return t.name + "(" + list(t.args) + ")"
	case OEq:
		return r(t.args[0]) + "==" + r(t.args[1])
	case OLt:
		return r(t.args[0]) + "<" + r(t.args[1])
	case OTypeIs:
		return r(t.args[0]) + " is " + shortType(t.typ)
	case OIte:
		if t.args[1].op == OConst && t.args[2].op == OConst && t.args[1].cv.Kind() == constant.Bool {
			if t.args[1].cv.String() == "true" {
				return "[" + r(t.args[0]) + "]"
			}
			return "![" + r(t.args[0]) + "]"
		}
		return "(" + r(t.args[0]) + " ? " + r(t.args[1]) + " : " + r(t.args[2]) + ")"
	case OAlloc:
		return "&" + t.name
	case OFieldAddr:
		return "&" + r(t.args[0]) + ".f" + strconv.Itoa(t.idx)
	case OIndexAddr:
		return "&" + r(t.args[0]) + "[" + r(t.args[1]) + "]"
	case OClosure:
		return "fn:" + t.fn.Name() + "{" + list(t.args) + "}"
	case OIface:
		return "<" + shortType(t.typ) + ">" + r(t.args[0])
	case OCat:
		var ss []string
		for _, x := range t.args {
			ss = append(ss, r(x))
		}
		return strings.Join(ss, "·")
	case OTuple:
		return "(" + list(t.args) + ")"
	case OStruct:
		return "{" + list(t.args) + "}"
	case OSlice:
		return "slice:" + r(t.args[0])
	case OSeq:
		return "[" + list(t.args) + "]"
	case OElem, OSpread, OLoop, OFill, OUpd:
		s := ""
		switch t.op {
		case OElem:
			s = r(t.args[1])
		case OSpread:
			s = r(t.args[1]) + "..."
		case OLoop:
			s = "for(" + r(t.args[1]) + ":" + r(t.args[2]) + ")"
		case OFill:
			s = "fill(" + list(t.args[1:]) + ")"
		case OUpd:
			s = "upd(" + list(t.args[1:]) + ")"
		}
		if t.args[0].op == OConst {
			return s
		}
		return r(t.args[0]) + "=>" + s
	case OMap:
		return "map{" + list(t.args) + "}"
	case OTop:
		return "⊤" + t.name + "(" + list(t.args) + ")"
	}
	return "?"
}

var _ = token.ADD
