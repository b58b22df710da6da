package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeArgs evaluates the callee operand and arguments of a call.
func (e *E) calleeArgs(fr *frame, c *ssa.CallCommon) (*T, []*T) {
	var args []*T
	f := e.val(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	return f, args
}

func (e *E) callInstr(fr *frame, st *State, x *ssa.Call) *T {
	f, args := e.calleeArgs(fr, x.Common())
	return e.doCall(fr, st, x, f, args)
}

func (e *E) doCall(fr *frame, st *State, x ssa.CallInstruction, f *T, args []*T) *T {
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, x, b.Name(), args)
	}
	if c.IsInvoke() {
		e.checkNil(fr, st, x.Pos(), f, "method "+c.Method.Name()+" called on nil interface")
		f = e.restrictNonNil(st, e.restrict(f, st.pc))
		return e.overLeaves(st, f, func(s *State, recv *T) *T {
			return e.invoke(fr, s, x, c, recv, args)
		})
	}
	return e.overLeaves(st, e.restrict(f, st.pc), func(s *State, fv *T) *T {
		if fv.op == OClosure {
			return e.callStatic(fr, s, x, fv.fn, args, fv.args)
		}
		if fv.op == ONil {
			e.obligation("nil", x.Pos(), fr, s.pc, e.True, "call of nil function")
			s.pc = e.False
			return e.top("nilcall")
		}
		if h := e.user[fv.name]; h != nil && fv.op == OSym {
			return h(s, args)
		}
		// call of an opaque function value
		e.clobber(s, fv, args)
		return e.opaqueCall(s, "dyn:"+clip(fv), append([]*T{fv}, args...), c.Signature().Results(), x.Pos())
	})
}

// clobber forgets the fields of the objects handed to an unknown function.
func (e *E) clobber(st *State, fv *T, args []*T) {
	for _, a := range args {
		if a.op != OAlloc || strings.HasPrefix(a.name, "global:") {
			continue
		}
		old, ok := st.heap[a.id]
		if !ok || old.op != OStruct {
			continue
		}
		fs := make([]*T, len(old.args))
		for i := range fs {
			fs[i] = e.app(fmt.Sprintf("dyn#%d", i), fv, old)
			t := old.typ
			if t == nil {
				t = e.atypes[a.id]
			}
			if t != nil {
				if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
					e.noteType(fs[i], st.Field(i).Type())
				}
			}
		}
		st.heap[a.id] = e.strct(old.typ, fs)
		for id := range e.active {
			if e.active[id] > 0 {
				e.noteFoldsIn(e.byID(id))
			}
		}
	}
}

// overLeaves runs f for every leaf of v under its guard and merges.
func (e *E) overLeaves(st *State, v *T, f func(*State, *T) *T) *T {
	if v.op != OIte {
		return f(st, v)
	}
	ls := e.leaves(v)
	if len(ls) > 300 {
		return e.top("too-many-callees")
	}
	var edges []edge
	var vals [][]*T
	for _, l := range ls {
		pc := e.and(st.pc, l.g)
		if pc == e.False {
			continue
		}
		s := st.with(pc)
		r := f(s, l.v)
		if s.pc == e.False {
			continue
		}
		edges = append(edges, edge{st: s})
		vals = append(vals, []*T{r})
	}
	if len(edges) == 0 {
		st.pc = e.False
		return e.top("dead")
	}
	m, rv := e.mergeAll(edges, vals)
	st.pc, st.heap, st.defers = m.pc, m.heap, m.defers
	return rv[0]
}

func (e *E) invoke(fr *frame, st *State, x ssa.CallInstruction, c *ssa.CallCommon, recv *T, args []*T) *T {
	if recv.op == OIface {
		m := e.prog.method(recv.typ, c.Method)
		if m != nil {
			return e.callStatic(fr, st, x, m, append([]*T{recv.args[0]}, args...), nil)
		}
		return e.opaqueCall(st, "call:"+shortType(recv.typ)+"."+c.Method.Name(), append([]*T{recv.args[0]}, args...), c.Signature().Results(), x.Pos())
	}
	if recv.op == ONil {
		st.pc = e.False
		return e.top("nilinvoke")
	}
	if e.prog.isGrammarTerm(recv) {
		return e.grammarCall(st, recv, c.Method.Name(), args, c.Signature().Results())
	}
	name := "call:" + c.Method.Name()
	cc := &callCtx{name: "invoke:" + c.Method.Name(), args: append([]*T{recv}, args...), pos: x.Pos(), result: c.Signature().Results()}
	if m, ok := e.models[cc.name]; ok {
		if r, done := m(e, st, cc); done {
			return r
		}
	}
	e.record("invoke:"+c.Method.Name(), st, x.Pos(), fr.fn, cc.args...)
	return e.opaqueCall(st, name, append([]*T{recv}, args...), c.Signature().Results(), x.Pos())
}

func (e *E) grammarCall(st *State, recv *T, name string, args []*T, res *types.Tuple) *T {
	if name == "GetText" {
		r := e.app("GetText", recv)
		e.noteType(r, types.Typ[types.String])
		return r
	}
	r := e.app("g:"+name, append([]*T{recv}, args...)...)
	if res.Len() == 1 {
		e.noteType(r, res.At(0).Type())
	}
	return r
}

func (e *E) callStatic(fr *frame, st *State, x ssa.CallInstruction, fn *ssa.Function, args, bind []*T) *T {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	cc := &callCtx{fn: fn, name: name, args: args, pos: x.Pos(), result: fn.Signature.Results()}
	if m, ok := e.models[name]; ok {
		if r, done := m(e, st, cc); done {
			return r
		}
	}
	if r, ok := e.genericModel(st, cc); ok {
		return r
	}
	if e.hook != nil {
		e.hook(e, st, x, fn, args)
	}
	// generated grammar accessors on a known parse-tree term
	if fn.Signature.Recv() != nil && len(args) > 0 && e.prog.isGrammarTerm(args[0]) && fn.Name() != "Accept" {
		e.checkNil(fr, st, x.Pos(), args[0], "accessor "+fn.Name()+" on nil node")
		return e.grammarCall(st, args[0], fn.Name(), args[1:], fn.Signature.Results())
	}
	if fn.Name() == "GetText" && len(args) == 1 {
		if root, path := ptrRoot(args[0]); len(path) > 0 && e.prog.isGrammarTerm(root) {
			return e.grammarCall(st, root, "GetText", nil, fn.Signature.Results())
		}
	}
	if fn.Blocks == nil || e.prog.isExternal(fn) {
		return e.external(st, cc, x)
	}
	if e.opaque != nil && e.opaque(fn) {
		return e.opaqueCall(st, "call:"+fn.String(), append(append([]*T{}, args...), bind...), fn.Signature.Results(), x.Pos())
	}
	depth := 1
	if e.api {
		depth = 6
	}
	if e.inStack(fn) > depth || len(e.stack) > 80 || e.steps > e.maxStep {
		e.unmodel["recursion:"+fn.String()]++
		return e.opaqueCall(st, "rec:"+fn.String(), args, fn.Signature.Results(), x.Pos())
	}
	return e.callFunc(st, fn, args, bind, x.Pos())
}

// freeze replaces heap references of slice kind by their content.
func (e *E) freeze(st *State, v *T) *T {
	switch v.op {
	case OSlice:
		c := e.contentOf(st, v)
		var ps []*T
		for _, p := range c.args {
			n := append([]*T{}, p.args...)
			if p.op == OElem {
				n[1] = e.freeze(st, n[1])
			}
			ps = append(ps, e.mk(&T{op: p.op, args: n}))
		}
		return e.seq(ps...)
	case OIface:
		if _, ok := v.typ.Underlying().(*types.Pointer); !ok {
			return e.freeze(st, v.args[0])
		}
	case OIte:
		return e.lift(v, func(x *T) *T { return e.freeze(st, x) })
	}
	return v
}

// opaqueCall yields pure applications for the results; pointer arguments to
// known objects are clobbered.
func (e *E) opaqueCall(st *State, name string, args []*T, res *types.Tuple, pos token.Pos) *T {
	fz := make([]*T, len(args))
	for i, a := range args {
		fz[i] = e.freeze(st, a)
		if a.op == OAlloc && !strings.HasPrefix(a.name, "global:") {
			if old, ok := st.heap[a.id]; ok && old.op != OStruct && old.op != OMap && old.op != OSeq {
				fz[i] = e.sym("&out", nil)
			}
		}
	}
	for i, a := range args {
		if a.op == OAlloc && !strings.HasPrefix(a.name, "global:") {
			if old, ok := st.heap[a.id]; ok {
				if old.op != OStruct && old.op != OMap && old.op != OSeq {
					o := e.app(fmt.Sprintf("%s#out%d", name, i), fz...)
					if t, ok := e.atypes[a.id]; ok {
						e.noteType(o, t)
					}
					st.heap[a.id] = o
				}
			}
		}
	}
	return e.results(name, fz, res)
}

func (e *E) results(name string, args []*T, res *types.Tuple) *T {
	mkr := func(i int, nm string) *T {
		t := res.At(i).Type()
		one := func(as []*T) *T {
			r := e.app(nm, as...)
			e.noteType(r, t)
			if isBool(t) {
				return e.atom(r)
			}
			return r
		}
		// distribute over a single conditional argument
		k, cnt := -1, 0
		for j, a := range args {
			if a.op == OIte {
				k = j
				cnt++
			}
		}
		if cnt == 1 && e.nleaves(args[k]) <= 40 {
			return e.lift(args[k], func(x *T) *T {
				as := append([]*T{}, args...)
				as[k] = x
				return one(as)
			})
		}
		return one(args)
	}
	switch res.Len() {
	case 0:
		return e.tuple()
	case 1:
		return mkr(0, name)
	}
	var rs []*T
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, mkr(i, fmt.Sprintf("%s#%d", name, i)))
	}
	return e.tuple(rs...)
}

func (e *E) external(st *State, cc *callCtx, x ssa.CallInstruction) *T {
	e.record("ext:"+cc.name, st, x.Pos(), nil, cc.args...)
	return e.opaqueCall(st, "call:"+cc.name, cc.args, cc.result, x.Pos())
}

func (e *E) builtin(fr *frame, st *State, x ssa.CallInstruction, name string, args []*T) *T {
	switch name {
	case "len":
		v := args[0]
		t := x.Common().Args[0].Type()
		if isString(t) {
			return e.strLen(v)
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			return e.lift(v, func(m *T) *T {
				c := e.mapContent(st, m)
				if c.op == OMap && c.name == "" {
					ok := true
					for i := 0; i < len(c.args); i += 2 {
						if c.args[i].op != OConst || c.args[i+1].op == OSym && c.args[i+1].name == "deleted" {
							ok = false
						}
					}
					if ok || e.api && e.distinctKeys(c) {
						return e.intc(len(c.args) / 2)
					}
				}
				return e.app("maplen", c)
			})
		}
		return e.seqLenLift(e.contentOf(st, v))
	case "cap":
		return e.app("cap", args...)
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		base := e.contentOf(st, args[0])
		var ext *T
		if isString(x.Common().Args[1].Type()) {
			ext = e.seq(e.spread(e.True, e.app("bytes", args[1])))
		} else {
			ext = e.contentOf(st, args[1])
		}
		if base.op != OSeq {
			base = e.seqOfVal(base)
		}
		if ext.op != OSeq {
			ext = e.seqOfVal(ext)
		}
		if len(ext.args) == 0 {
			return args[0]
		}
		res := e.newSlice(st, e.seq(append(append([]*T{}, base.args...), ext.args...)...))
		e.appendInPlace(st, args[0], base, ext, res)
		return res
	case "copy":
		dst := args[0]
		src := e.contentOf(st, args[1])
		if dst.op == OSlice {
			dc := e.contentOf(st, dst)
			if e.api && dc.op == OSeq && src.op == OSeq && simpleElems(dc, e.True) && simpleElems(src, e.True) {
				for i := 0; i < len(src.args) && i < len(dc.args); i++ {
					e.storeElem(st, dst.args[0], i, src.args[i].args[1])
				}
				return e.intc(min(len(src.args), len(dc.args)))
			}
			e.blurBases(st, dst.args[0])
			if e.seqLenLift(dc) == e.seqLenLift(src) {
				st.heap[dst.args[0].id] = src
			} else {
				st.heap[dst.args[0].id] = e.seq(e.spread(e.True, e.app("copy", dc, src)))
			}
		}
		return e.seqLenLift(src)
	case "delete":
		e.mapStore(st, args[0], args[1], e.sym("deleted", nil))
		e.recordStore(fr, st, args[0], x.Pos())
		return e.tuple()
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			c := e.lt(a, r)
			if name == "max" {
				c = e.lt(r, a)
			}
			r = e.ite(c, a, r)
		}
		return r
	case "print", "println", "close":
		return e.tuple()
	case "clear":
		for _, l := range e.leaves(args[0]) {
			if l.v.op == OAlloc {
				st.heap[l.v.id] = e.mk(&T{op: OMap})
			}
		}
		return e.tuple()
	case "recover":
		return e.Nil
	case "panic":
		e.obligation("panic", x.Pos(), fr, st.pc, e.True, "explicit panic")
		st.pc = e.False
		return e.tuple()
	case "ssa:wrapnilchk":
		e.checkNil(fr, st, x.Pos(), args[0], "nil receiver")
		return args[0]
	}
	e.unmodel["builtin:"+name]++
	return e.top("builtin:" + name)
}

// ---------------------------------------------------------------- theory

// impliedLit decides whether literal (a = val) fixes atom b: 1, 0 or -1.
func (e *E) impliedLit(a *T, val bool, b *T) int {
	eqc := func(t *T) (*T, *T, bool) {
		if t.op == OEq && (t.args[1].op == OConst || t.args[1].op == ONil) {
			return t.args[0], t.args[1], true
		}
		return nil, nil, false
	}
	ax, ac, aeq := eqc(a)
	bx, bc, beq := eqc(b)
	if aeq && beq && ax == bx && ac != bc {
		if val {
			return 0
		}
		if e.prog.gram != nil {
			return e.prog.impliedText(e, a, val, b)
		}
		return -1
	}
	if aeq && val {
		if s, ok := ac.isStr(); ok {
			if r := strFact(ax, s, b); r >= 0 {
				return r
			}
		}
	}
	if beq {
		if s, ok := bc.isStr(); ok {
			if r := strFact(bx, s, a); r >= 0 && (r == 1) != val {
				return 0
			}
		}
	}
	if a.op == OTypeIs && b.op == OTypeIs && a.args[0] == b.args[0] {
		_, ai := a.typ.Underlying().(*types.Interface)
		bt, bi := b.typ.Underlying().(*types.Interface)
		if val && !ai && !bi {
			return 0
		}
		if val && !ai && bi {
			if types.Implements(a.typ, bt) {
				return 1
			}
			return 0
		}
		return -1
	}
	if a.op == OTypeIs && val && beq && bx == a.args[0] && bc.op == ONil {
		return 0
	}
	if aeq && val && ac.op == ONil && b.op == OTypeIs && b.args[0] == ax {
		return 0
	}
	// integer order against constants
	if r := e.implInt(a, val, b); r >= 0 {
		return r
	}
	// parse-tree alternatives
	if aeq && beq && ac.op == ONil && bc.op == ONil && e.prog.gram != nil {
		return e.prog.impliedPresence(e, ax, val, bx)
	}
	if e.prog.gram != nil {
		return e.prog.impliedText(e, a, val, b)
	}
	return -1
}

// strFact decides atom b when string x equals s.
func strFact(x *T, s string, b *T) int {
	val := func(t *T) (int64, bool) {
		if n, ok := t.isInt(); ok {
			return n, true
		}
		if t.op == OApp && t.name == "len" && t.args[0] == x {
			return int64(len(s)), true
		}
		if t.op == OApp && t.name == "byteat" && t.args[0] == x {
			if i, ok := t.args[1].isInt(); ok && i >= 0 && i < int64(len(s)) {
				return int64(s[i]), true
			}
		}
		return 0, false
	}
	if b.op != OEq && b.op != OLt {
		return -1
	}
	l, ok1 := val(b.args[0])
	r, ok2 := val(b.args[1])
	if !ok1 || !ok2 {
		return -1
	}
	if b.op == OEq && l == r || b.op == OLt && l < r {
		return 1
	}
	return 0
}

// interval of x implied by literal.
func litInterval(t *T, val bool) (x *T, lo, hi int64, ok bool) {
	const inf = int64(1) << 60
	switch t.op {
	case OEq:
		if n, o := t.args[1].isInt(); o && val {
			return t.args[0], n, n, true
		}
		if n, o := t.args[1].isInt(); o && !val && n == 0 && t.args[0].op == OApp && t.args[0].name == "len" {
			return t.args[0], 1, inf, true
		}
	case OLt:
		if n, o := t.args[0].isInt(); o {
			if val {
				return t.args[1], n + 1, inf, true
			}
			return t.args[1], -inf, n, true
		}
		if n, o := t.args[1].isInt(); o {
			if val {
				return t.args[0], -inf, n - 1, true
			}
			return t.args[0], n, inf, true
		}
	}
	return nil, 0, 0, false
}

func (e *E) implInt(a *T, val bool, b *T) int {
	x, lo, hi, ok := litInterval(a, val)
	if !ok {
		return -1
	}
	for _, bv := range []bool{true, false} {
		y, l2, h2, ok := litInterval(b, bv)
		if !ok || x != y {
			continue
		}
		if lo >= l2 && hi <= h2 {
			if bv {
				return 1
			}
			return 0
		}
		if hi < l2 || lo > h2 {
			if bv {
				return 0
			}
			return 1
		}
	}
	// Eq false side
	if b.op == OEq {
		if n, o := b.args[1].isInt(); o && b.args[0] == x && (n < lo || n > hi) {
			return 0
		}
	}
	return -1
}
