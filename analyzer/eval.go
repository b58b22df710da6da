package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// E is the interprocedural value-graph evaluator.
type E struct {
	deadline time.Time // of the scenario under evaluation; zero: none

	axMemo  map[int]*T
	opqMemo map[int]bool
	*Terms
	prog                        *Program
	allocN                      int
	uuidN                       int
	mocks                       map[string]*T
	mockFails                   map[string]bool
	mockParser, mockParserFails bool // the SQL parser is replaced by a stand-in
	parsed                      []parsedCall
	muN                         int
	idxBind                     map[int][]idxBinding
	alias                       map[int]*T // truncated slices: the array they share
	only                        string     // when set, the only kind of statement considered
	views                       []view     // slices sharing arrays
	revMaps                     bool       // ranges over maps visit the entries in reverse
	mapHit                      bool       // some map of several entries was ranged over
	sortCmp                     func(pos token.Pos, bad *T)
	api                         bool            // public operations on given inputs: every obligation is exact
	peel                        map[string]bool // lists instantiated with a fixed number of elements
	soft                        map[string]bool // lists of undecided index expressions
	peelMode                    string          // how many: two, five ("long"), two and one ("ragged")
	folds                       map[string]bool // lists whose loops carry state in no closed form
	rtypes                      map[int]types.Type
	atypes                      map[int]types.Type // allocated element types
	stack                       []*frame
	oblig                       map[string]*Obligation
	oblOrd                      []string
	quiet                       int
	steps                       int
	maxStep                     int
	models                      map[string]model
	hook                        func(e *E, st *State, call ssa.CallInstruction, fn *ssa.Function, args []*T)
	opaque                      func(fn *ssa.Function) bool
	user                        map[string]func(st *State, args []*T) *T // functions of the caller
	base                        *State                                   // heap after package initialisation
	visited                     map[*ssa.Function]int
	unmodel                     map[string]int
	events                      []event
	active                      map[int]int // active abstract loop domains
}

type event struct {
	name string
	pc   *T
	args []*T
	pos  token.Pos
	fn   *ssa.Function
}

type idxBinding struct{ seq, val *T }

type model func(e *E, st *State, c *callCtx) (*T, bool)

type callCtx struct {
	fn     *ssa.Function
	name   string
	args   []*T
	pos    token.Pos
	result *types.Tuple
}

// Obligation is a potential run-time failure with the condition under which it
// is reached.
type Obligation struct {
	kind string
	pos  token.Pos
	fn   string
	bad  *T // pc ∧ failure condition
	what string
	n    int
}

// State is an abstract machine state.
type State struct {
	pc     *T
	heap   map[int]*T
	defers []deferred
}

type deferred struct {
	g    *T
	call ssa.CallInstruction
	fn   *T
	args []*T
}

func (s *State) clone() *State {
	h := make(map[int]*T, len(s.heap)+4)
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{pc: s.pc, heap: h, defers: s.defers}
}

func (s *State) with(pc *T) *State {
	n := s.clone()
	n.pc = pc
	return n
}

type frame struct {
	fn    *ssa.Function
	env   map[ssa.Value]*T
	loops map[*ssa.BasicBlock]*loop
	rpo   []*ssa.BasicBlock
	call  token.Pos
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	vals     map[ssa.Value]*T
	ret      []*T // for returns (to == nil)
}

func newE(p *Program) *E {
	e := &E{Terms: newTerms(), alias: map[int]*T{}, peel: map[string]bool{}, folds: map[string]bool{}, soft: map[string]bool{}, axMemo: map[int]*T{}, opqMemo: map[int]bool{}, prog: p, idxBind: map[int][]idxBinding{}, rtypes: map[int]types.Type{}, atypes: map[int]types.Type{},
		oblig: map[string]*Obligation{}, maxStep: 3000000, models: map[string]model{}, visited: map[*ssa.Function]int{}, unmodel: map[string]int{}, active: map[int]int{}}
	e.Terms.implied = e.impliedLit
	registerModels(e)
	registerAPIModels(e)
	registerNetModels(e)
	registerStmtModels(e)
	return e
}

func (e *E) newAlloc(what string, t types.Type) *T {
	e.allocN++
	a := e.mk(&T{op: OAlloc, name: fmt.Sprintf("%s%d", what, e.allocN)})
	if t != nil {
		e.atypes[a.id] = t
	}
	return a
}

func (e *E) newState() *State {
	if e.base != nil {
		s := e.base.clone()
		s.pc = e.True
		s.defers = nil
		return s
	}
	return &State{pc: e.True, heap: map[int]*T{}}
}

// ---------------------------------------------------------------- values

func (e *E) zero(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.False
		case u.Info()&types.IsString != 0:
			return e.str("")
		case u.Info()&types.IsNumeric != 0:
			return e.intc(0)
		}
		return e.Nil
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return e.strct(nil, fs)
	case *types.Array:
		n := int(u.Len())
		z := e.zero(u.Elem())
		if n > 256 {
			return e.seq(e.mk(&T{op: OFill, args: []*T{e.True, e.intc(n), z}}))
		}
		var ps []*T
		for i := 0; i < n; i++ {
			ps = append(ps, e.elem(e.True, z))
		}
		return e.seq(ps...)
	}
	return e.Nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *E) constOf(c *ssa.Const) *T {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	v := c.Value
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		v = constant.ToFloat(v)
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			v = iv
		}
	}
	return e.constant(v, c.Type())
}

func (e *E) val(fr *frame, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constOf(x)
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Function:
		return e.mk(&T{op: OClosure, fn: x})
	case *ssa.Builtin:
		return e.sym("builtin:"+x.Name(), nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return e.top("undef:" + v.Name())
}

func (e *E) globalPtr(g *ssa.Global) *T {
	return e.mk(&T{op: OAlloc, name: "global:" + g.String()})
}

// project selects field i of a value.
func (e *E) project(v *T, i int) *T {
	switch v.op {
	case OStruct:
		if i < len(v.args) {
			return v.args[i]
		}
	case OIte:
		return e.lift(v, func(x *T) *T { return e.project(x, i) })
	case ONil, OTop:
		return e.top("field", v)
	}
	return e.app(fmt.Sprintf("field.%d", i), v)
}

func (e *E) inject(v *T, path []*T, nv *T, st *State) *T {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if v.op == OIte {
		return e.lift(v, func(x *T) *T { return e.inject(x, path, nv, st) })
	}
	if p.op == OFieldAddr {
		if v.op == OStruct {
			fs := append([]*T{}, v.args...)
			if p.idx < len(fs) {
				fs[p.idx] = e.inject(fs[p.idx], path[1:], nv, st)
			}
			return e.strct(nil, fs)
		}
		// unknown struct: materialise the fields
		n := p.name
		cnt := 0
		fmt.Sscanf(n, "%d", &cnt)
		fs := make([]*T, cnt)
		for i := range fs {
			fs[i] = e.project(v, i)
		}
		if p.idx < cnt {
			fs[p.idx] = e.inject(fs[p.idx], path[1:], nv, st)
		}
		return e.strct(nil, fs)
	}
	// index
	ix := p.args[1]
	old := e.seqIndexQuiet(v, ix)
	return e.seqStore(v, ix, e.inject(old, path[1:], nv, st))
}

func (e *E) seqIndexQuiet(v, ix *T) *T {
	return e.seqIndex(v, ix)
}

func (e *E) seqStore(seq, ix, nv *T) *T {
	if seq.op == OIte {
		return e.lift(seq, func(x *T) *T { return e.seqStore(x, ix, nv) })
	}
	if seq.op == OSeq {
		if n, ok := ix.isInt(); ok && n >= 0 {
			k := int(n)
			all := true
			for i := 0; i <= k && i < len(seq.args); i++ {
				if seq.args[i].op != OElem || seq.args[i].args[0] != e.True {
					all = false
				}
			}
			if all && k < len(seq.args) {
				ps := append([]*T{}, seq.args...)
				ps[k] = e.elem(e.True, nv)
				return e.seq(ps...)
			}
		}
	}
	return e.seq(e.mk(&T{op: OUpd, args: []*T{e.True, seq, ix, nv}}))
}

// ptrRoot decomposes a pointer into its root object and access path.
func ptrRoot(p *T) (*T, []*T) {
	var path []*T
	for p.op == OFieldAddr || p.op == OIndexAddr {
		path = append([]*T{p}, path...)
		p = p.args[0]
	}
	return p, path
}

func (e *E) load(st *State, p *T) *T {
	switch p.op {
	case OIte:
		return e.lift(p, func(x *T) *T { return e.load(st, x) })
	case OAlloc:
		if v, ok := st.heap[p.id]; ok {
			return v
		}
		if strings.HasPrefix(p.name, "global:") {
			return e.sym(p.name, nil)
		}
		return e.app("deref", p)
	case OFieldAddr:
		return e.project(e.load(st, p.args[0]), p.idx)
	case OIndexAddr:
		return e.seqIndex(e.load(st, p.args[0]), p.args[1])
	case ONil, OTop:
		return e.top("load", p)
	}
	if v, ok := st.heap[p.id]; ok {
		return v
	}
	if p.op == OApp && p.name == "builder" {
		return e.str("")
	}
	if p.op == OSlice {
		return e.contentOf(st, p)
	}
	if e.isSliceTerm(p) {
		return p
	}
	return e.app("deref", p)
}

func (e *E) isSliceTerm(p *T) bool {
	if t, ok := e.rtypes[p.id]; ok {
		_, ok := t.Underlying().(*types.Slice)
		return ok
	}
	return false
}

func (e *E) store(st *State, p, v *T) {
	for _, l := range e.leaves(p) {
		g := e.restrict(l.g, st.pc)
		if g == e.False {
			continue
		}
		root, path := ptrRoot(l.v)
		if root.op == ONil || root.op == OTop {
			continue
		}
		if root.op == OIte {
			// pointer into one of several objects
			for _, rl := range e.leaves(root) {
				gg := e.restrict(e.and(g, rl.g), st.pc)
				if gg == e.False || rl.v.op == ONil || rl.v.op == OTop {
					continue
				}
				e.storeRoot(st, rl.v, path, v, gg)
			}
			continue
		}
		e.storeRoot(st, root, path, v, g)
	}
}

func (e *E) storeRoot(st *State, root *T, path []*T, v, g *T) {
	e.storeOne(st, root, path, v, g)
	if len(e.views) == 0 || len(path) == 0 || path[0].op != OIndexAddr {
		return
	}
	// slices that share the array see the element change
	i, ok := path[0].args[1].isInt()
	if !ok {
		return
	}
	type at struct {
		root *T
		i    int64
	}
	seen := map[int]bool{root.id: true}
	work := []at{{root, i}}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		for _, vw := range e.views {
			o := at{}
			switch w.root {
			case vw.base:
				o = at{vw.view, w.i - vw.lo}
			case vw.view:
				o = at{vw.base, w.i + vw.lo}
			default:
				continue
			}
			if seen[o.root.id] {
				continue
			}
			c, ok := st.heap[o.root.id]
			if !ok || c.op != OSeq || !simpleElems(c, e.True) || o.i < 0 || int(o.i) >= len(c.args) {
				continue
			}
			seen[o.root.id] = true
			np := append([]*T{e.mk(&T{op: OIndexAddr, args: []*T{o.root, e.intc(int(o.i))}})}, path[1:]...)
			e.storeOne(st, o.root, np, v, g)
			work = append(work, o)
		}
	}
}

// view is a slice of another slice's array.
type view struct {
	base, view *T
	lo         int64
}

func (e *E) storeOne(st *State, root *T, path []*T, v, g *T) {
	old, ok := st.heap[root.id]
	if !ok {
		if root.op == OAlloc && !strings.HasPrefix(root.name, "global:") {
			old = e.app("deref", root)
		} else {
			old = e.load(st, root)
		}
	}
	nv := e.inject(old, path, v, st)
	if g != e.True {
		nv = e.mergeVal(g, st, nv, st, old, st)
	}
	st.heap[root.id] = nv
}

// ---------------------------------------------------------------- merging

func sliceLike(v *T) bool { return v.op == OSlice || v.op == ONil }

func (e *E) nilCond(v *T) *T {
	if v.op == ONil {
		return e.True
	}
	return v.args[1]
}

func (e *E) mergeVal(c *T, s1 *State, a *T, s2 *State, b *T, out *State) *T {
	if a == b || c == e.True {
		return a
	}
	if c == e.False {
		return b
	}
	if sliceLike(a) && sliceLike(b) && (a.op == OSlice || b.op == OSlice) {
		ca, cb := e.contentOf(s1, a), e.contentOf(s2, b)
		al := e.newAlloc("arr", nil)
		out.heap[al.id] = e.mergeSeq(c, ca, cb)
		return e.mk(&T{op: OSlice, args: []*T{al, e.ite(c, e.nilCond(a), e.nilCond(b))}})
	}
	if a.op == OSeq && b.op == OSeq {
		return e.mergeSeq(c, a, b)
	}
	if a.op == b.op && len(a.args) == len(b.args) && (a.op == OStruct || a.op == OTuple) {
		fs := make([]*T, len(a.args))
		for i := range fs {
			fs[i] = e.mergeVal(c, s1, a.args[i], s2, b.args[i], out)
		}
		return e.mk(&T{op: a.op, args: fs, typ: a.typ})
	}
	if a.op == OIface && b.op == OIface && e.tkey(a.typ) == e.tkey(b.typ) {
		x, y := a.args[0], b.args[0]
		if (sliceLike(x) && sliceLike(y)) || (x.op == OStruct && y.op == OStruct) {
			return e.iface(a.typ, e.mergeVal(c, s1, x, s2, y, out))
		}
	}
	if (a.op == OCat || b.op == OCat) && (e.isStringTerm(a) || e.isStringTerm(b)) {
		return e.mergeCat(c, a, b)
	}
	return e.ite(c, a, b)
}

// mergeStates joins b into a under disjoint path conditions and merges the
// parallel value lists.
func (e *E) mergeStates(a *State, av []*T, b *State, bv []*T) (*State, []*T) {
	if a.pc == e.False {
		return b, bv
	}
	if b.pc == e.False {
		return a, av
	}
	pc := e.or(a.pc, b.pc)
	c := e.restrict(a.pc, pc)
	out := &State{pc: pc, heap: make(map[int]*T, len(a.heap))}
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok {
			if v == w {
				out.heap[k] = v
			}
		} else {
			out.heap[k] = v
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok {
			out.heap[k] = w
		}
	}
	var diff []int
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok && v != w {
			diff = append(diff, k)
		}
	}
	sort.Ints(diff)
	for _, k := range diff {
		out.heap[k] = e.mergeVal(c, a, a.heap[k], b, b.heap[k], out)
	}
	// objects only symbolic in one side: content changed on one branch
	for k, v := range a.heap {
		if _, ok := b.heap[k]; !ok {
			if t := e.symRoot(k); t != nil {
				out.heap[k] = e.mergeVal(c, a, v, b, e.load(b, t), out)
			}
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok {
			if t := e.symRoot(k); t != nil {
				out.heap[k] = e.mergeVal(c, a, e.load(a, t), b, w, out)
			}
		}
	}
	ov := make([]*T, len(av))
	for i := range av {
		ov[i] = e.mergeVal(c, a, av[i], b, bv[i], out)
	}
	// deferred calls
	i := 0
	for i < len(a.defers) && i < len(b.defers) && a.defers[i].call == b.defers[i].call && a.defers[i].g == b.defers[i].g {
		i++
	}
	out.defers = append([]deferred{}, a.defers[:i]...)
	for _, d := range a.defers[i:] {
		d.g = e.and(d.g, c)
		out.defers = append(out.defers, d)
	}
	for _, d := range b.defers[i:] {
		d.g = e.and(d.g, e.not(c))
		out.defers = append(out.defers, d)
	}
	return out, ov
}

// symRoot returns the symbolic root term with id k, nil for allocations.
func (e *E) symRoot(k int) *T {
	t := e.byID(k)
	if t == nil || (t.op == OAlloc && !strings.HasPrefix(t.name, "global:")) {
		return nil
	}
	return t
}

func (e *E) mergeAll(edges []edge, vals [][]*T) (*State, []*T) {
	st, v := edges[0].st, vals[0]
	for i := 1; i < len(edges); i++ {
		st, v = e.mergeStates(st, v, edges[i].st, vals[i])
	}
	if len(edges) == 1 {
		st = st.clone()
	}
	return st, v
}

// ---------------------------------------------------------------- functions

func (e *E) inStack(fn *ssa.Function) int {
	n := 0
	for _, f := range e.stack {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// callFunc evaluates fn in st and returns its result (a tuple for several
// results); st is updated in place to the state after the call.
func (e *E) callFunc(st *State, fn *ssa.Function, args, bind []*T, pos token.Pos) *T {
	fr := &frame{fn: fn, env: map[ssa.Value]*T{}, call: pos}
	e.visited[fn]++
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.env[p] = bind[i]
		}
	}
	info := e.prog.loopInfo(fn)
	fr.loops = info.byHeader
	fr.rpo = info.rpo
	e.stack = append(e.stack, fr)
	outer := st.defers
	st0 := st.clone()
	st0.defers = nil
	outs := e.evalRegion(fr, nil, []edge{{from: nil, to: fn.Blocks[0], st: st0}})
	e.stack = e.stack[:len(e.stack)-1]
	var rets []edge
	var vals [][]*T
	for _, o := range outs {
		if o.to == nil && o.st.pc != e.False {
			rets = append(rets, o)
			vals = append(vals, o.ret)
		}
	}
	if len(rets) == 0 {
		st.pc = e.False
		return e.top("noreturn:" + fn.Name())
	}
	ns, v := e.mergeAll(rets, vals)
	st.pc = ns.pc
	st.heap = ns.heap
	st.defers = outer
	if len(v) == 1 {
		return v[0]
	}
	return e.tuple(v...)
}

// evalRegion evaluates the blocks of loop L (nil: the whole function body) once
// without taking L's back edges; it returns the edges leaving the region,
// including back edges to L's header and returns.
func (e *E) evalRegion(fr *frame, L *loop, in []edge) []edge {
	pending := map[*ssa.BasicBlock][]edge{}
	var outs []edge
	var header *ssa.BasicBlock
	if L != nil {
		header = L.header
	} else {
		header = fr.fn.Blocks[0]
	}
	pending[header] = in
	dispatch := func(es []edge) {
		for _, ed := range es {
			if ed.st.pc == e.False {
				continue
			}
			if ed.to == nil || ed.to == header || (L != nil && !L.blocks[ed.to]) {
				outs = append(outs, ed)
				continue
			}
			pending[ed.to] = append(pending[ed.to], ed)
		}
	}
	skip := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		if L != nil && !L.blocks[b] {
			continue
		}
		if skip[b] {
			continue
		}
		es := pending[b]
		if il := fr.loops[b]; il != nil && il != L {
			for x := range il.blocks {
				skip[x] = true
			}
			if len(es) == 0 {
				continue
			}
			dispatch(e.evalLoop(fr, il, es))
			continue
		}
		if len(es) == 0 {
			continue
		}
		if L != nil && b == header {
			// phis were bound by the loop driver
			dispatch(e.evalBlock(fr, b, es[0].st, true))
			continue
		}
		st := e.enterBlock(fr, b, es)
		dispatch(e.evalBlock(fr, b, st, false))
	}
	return outs
}

// enterBlock merges the incoming edges and binds the phis of b.
func (e *E) enterBlock(fr *frame, b *ssa.BasicBlock, es []edge) *State {
	st, phis, vals := e.mergeInto(fr, b, es)
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	return st
}

// mergeInto merges edges, sets merged live-outs and returns phi values.
func (e *E) mergeInto(fr *frame, b *ssa.BasicBlock, es []edge) (*State, []ssa.Value, []*T) {
	var phis []ssa.Value
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	liveSet := map[ssa.Value]bool{}
	var live []ssa.Value
	for _, ed := range es {
		for v := range ed.vals {
			if !liveSet[v] {
				liveSet[v] = true
				live = append(live, v)
			}
		}
	}
	sort.Slice(live, func(i, j int) bool { return live[i].Name() < live[j].Name() })
	keys := append(append([]ssa.Value{}, phis...), live...)
	vals := make([][]*T, len(es))
	for i, ed := range es {
		get := func(v ssa.Value) *T {
			if x, ok := ed.vals[v]; ok {
				return x
			}
			return e.val(fr, v)
		}
		row := make([]*T, len(keys))
		for k, v := range phis {
			p := v.(*ssa.Phi)
			pi := -1
			for j, pr := range b.Preds {
				if pr == ed.from {
					pi = j
				}
			}
			if pi < 0 {
				row[k] = e.top("phi")
			} else {
				row[k] = get(p.Edges[pi])
			}
		}
		for k, v := range live {
			row[len(phis)+k] = get(v)
		}
		vals[i] = row
	}
	st, mv := e.mergeAll(es, vals)
	for k, v := range live {
		fr.env[v] = mv[len(phis)+k]
	}
	return st, phis, mv[:len(phis)]
}

// evalBlock runs the instructions of b in st.
func (e *E) evalBlock(fr *frame, b *ssa.BasicBlock, st *State, skipPhi bool) []edge {
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > e.maxStep {
			return nil
		}
		if e.steps&63 == 0 {
			e.checkTime()
		}
		if st.pc == e.False {
			return nil
		}
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := e.boolVal(e.val(fr, x.Cond))
			c = e.restrict(c, st.pc)
			tpc := e.and(st.pc, c)
			fpc := e.and(st.pc, e.not(c))
			var out []edge
			if e.feasible(tpc) {
				out = append(out, edge{from: b, to: b.Succs[0], st: st.with(tpc)})
			}
			if e.feasible(fpc) {
				out = append(out, edge{from: b, to: b.Succs[1], st: st.with(fpc)})
			}
			return out
		case *ssa.Jump:
			return []edge{{from: b, to: b.Succs[0], st: st}}
		case *ssa.Return:
			var rv []*T
			for _, r := range x.Results {
				rv = append(rv, e.val(fr, r))
			}
			return []edge{{from: b, to: nil, st: st, ret: rv}}
		case *ssa.Panic:
			e.obligation("panic", x.Pos(), fr, st.pc, e.True, "explicit panic")
			return nil
		default:
			e.instr(fr, st, in)
		}
	}
	return nil
}

func (e *E) boolVal(v *T) *T {
	return e.lift(v, func(x *T) *T {
		if x == e.True || x == e.False {
			return x
		}
		return e.atom(x)
	})
}

func (e *E) feasible(pc *T) bool { return pc != e.False }

// errPanicked: the code under evaluation panics on every path.
var errPanicked = fmt.Errorf("panics")

// errTime: a scenario takes too long.
var errTime = fmt.Errorf("time limit")

func (e *E) checkTime() {
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		panic(errTime)
	}
}

func (e *E) obligation(kind string, pos token.Pos, fr *frame, pc, bad *T, what string) {
	if e.quiet > 0 {
		return
	}
	b := e.and(pc, bad)
	b = e.sat(b)
	key := fmt.Sprintf("%s|%d|%s", kind, pos, fr.fn.String())
	o := e.oblig[key]
	if o == nil {
		o = &Obligation{kind: kind, pos: pos, fn: fr.fn.String(), bad: e.False, what: what}
		e.oblig[key] = o
		e.oblOrd = append(e.oblOrd, key)
	}
	o.n++
	if b != e.False {
		o.bad = e.or(o.bad, b)
		o.what = what
		if b == e.True && e.api {
			panic(errPanicked)
		}
	}
}
