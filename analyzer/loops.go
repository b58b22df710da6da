package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	liveOut []ssa.Value
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	rpo      []*ssa.BasicBlock
}

func computeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range li.byHeader {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						l.liveOut = append(l.liveOut, v)
						break
					}
				}
			}
		}
		sort.Slice(l.liveOut, func(i, j int) bool { return l.liveOut[i].Name() < l.liveOut[j].Name() })
	}
	return li
}

// induction describes the counting phi of a loop.
type induction struct {
	phi    *ssa.Phi
	init   int64
	start  ssa.Value // symbolic start value (nil: constant)
	use    ssa.Value // value compared with the bound and used as the index
	off    int64
	first  int64 // value of use in the first iteration
	cond   *ssa.BinOp
	bound  ssa.Value
	exit   *ssa.BasicBlock
	body   *ssa.BasicBlock
	endVal *T
}

func findInduction(L *loop) *induction {
	h := L.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if !L.blocks[h.Succs[0]] || L.blocks[h.Succs[1]] {
		return nil
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := c.Op.String()
	a, b := c.X, c.Y
	if op == ">" {
		a, b = b, a
		op = "<"
	}
	if op == "!=" {
		op = "<"
	}
	if op != "<" {
		return nil
	}
	base := func(v ssa.Value) (*ssa.Phi, int64, bool) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return p, 0, true
		}
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op.String() == "+" && bo.Block() == h {
			if k, ok := bo.Y.(*ssa.Const); ok {
				if p, ok := bo.X.(*ssa.Phi); ok && p.Block() == h {
					return p, k.Int64(), true
				}
			}
		}
		return nil, 0, false
	}
	p, off, ok := base(a)
	if !ok {
		return nil
	}
	ind := &induction{phi: p, use: a, cond: c, bound: b, exit: h.Succs[1], body: h.Succs[0]}
	for i, ed := range p.Edges {
		pr := h.Preds[i]
		if L.blocks[pr] {
			// latch: phi + 1 (or the incremented use itself)
			if ed == a && off == 1 {
				continue
			}
			bo, ok := ed.(*ssa.BinOp)
			if !ok || bo.Op.String() != "+" {
				return nil
			}
			k, ok := bo.Y.(*ssa.Const)
			if !ok || k.Int64() != 1 || bo.X != ssa.Value(p) {
				return nil
			}
		} else {
			k, ok := ed.(*ssa.Const)
			if !ok || k.Value == nil {
				if ind.start != nil && ind.start != ed {
					return nil
				}
				ind.start = ed
				continue
			}
			ind.init = k.Int64()
		}
	}
	ind.off = off
	ind.first = ind.init + off
	if ind.start != nil && off != 0 {
		return nil
	}
	if !invariantExpr(L, b, 0) {
		return nil
	}
	return ind
}

// invariantExpr accepts loop-invariant values and pure header expressions over
// them (len, arithmetic, loads).
func invariantExpr(L *loop, v ssa.Value, depth int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !L.blocks[in.Block()] {
		return true
	}
	if in.Block() != L.header || depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		bb, ok := x.Call.Value.(*ssa.Builtin)
		return ok && bb.Name() == "len" && invariantExpr(L, x.Call.Args[0], depth+1)
	case *ssa.BinOp:
		return invariantExpr(L, x.X, depth+1) && invariantExpr(L, x.Y, depth+1)
	case *ssa.UnOp:
		return invariantExpr(L, x.X, depth+1)
	case *ssa.FieldAddr:
		return invariantExpr(L, x.X, depth+1)
	case *ssa.Convert:
		return invariantExpr(L, x.X, depth+1)
	}
	return false
}

// evalLoop evaluates a natural loop and returns its exit edges.
func (e *E) evalLoop(fr *frame, L *loop, in []edge) []edge {
	st, phis, init := e.mergeInto(fr, L.header, in)
	if outs, ok := e.unrollLoop(fr, L, st.clone(), phis, init); ok {
		return outs
	}
	if it := findMapIter(L); it != nil {
		if outs, ok := e.mapLoop(fr, L, it, st.clone(), phis, init); ok {
			return outs
		}
	}
	if ind := findInduction(L); ind != nil {
		return e.countedLoop(fr, L, ind, st, phis, init)
	}
	d := e.app(fmt.Sprintf("iter@%s", e.prog.posKey(L.header.Instrs[0].Pos(), fr.fn, L.header.Index)))
	return e.abstractLoop(fr, L, nil, d, nil, st, phis, init, nil)
}

func (e *E) bindPhis(fr *frame, phis []ssa.Value, vals []*T) {
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (e *E) snap(fr *frame, L *loop) map[ssa.Value]*T {
	m := make(map[ssa.Value]*T, len(L.liveOut))
	for _, v := range L.liveOut {
		if t, ok := fr.env[v]; ok {
			m[v] = t
		}
	}
	return m
}

// splitOuts separates back edges from exits (annotating exits with live-outs
// captured at emission time). Nested exits already carry their values.
func (e *E) splitOuts(fr *frame, L *loop, outs []edge) (back, exits []edge) {
	for _, o := range outs {
		if o.to == L.header {
			back = append(back, o)
			continue
		}
		if o.to != nil {
			m := e.snap(fr, L)
			for k, v := range o.vals {
				m[k] = v
			}
			// phi operands of the target
			for _, ins := range o.to.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for j, pr := range o.to.Preds {
					if pr == o.from {
						if _, ok := m[p.Edges[j]]; !ok {
							if t, ok := fr.env[p.Edges[j]]; ok {
								m[p.Edges[j]] = t
							}
						}
					}
				}
			}
			o.vals = m
		}
		exits = append(exits, o)
	}
	return
}

// latch merges the back edges into one state and the next phi values.
func (e *E) latch(fr *frame, L *loop, back []edge) (*State, []*T) {
	st, _, vals := e.mergeInto(fr, L.header, back)
	return st, vals
}

// unrollLoop runs the loop while its header test is constant.
func (e *E) unrollLoop(fr *frame, L *loop, st *State, phis []ssa.Value, vals []*T) ([]edge, bool) {
	var outs []edge
	h := L.header
	iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false
	}
	if !headerConst(e, fr, L, st, phis, vals, iff) {
		return nil, false
	}
	oldEv := len(e.events)
	oldBad := make(map[string]*T, len(e.oblig))
	for k, o := range e.oblig {
		oldBad[k] = o.bad
	}
	for n := 0; n < 200; n++ {
		e.bindPhis(fr, phis, vals)
		res := e.evalRegion(fr, L, []edge{{to: h, st: st}})
		back, exits := e.splitOuts(fr, L, res)
		outs = append(outs, exits...)
		if len(back) == 0 {
			return outs, true
		}
		st, vals = e.latch(fr, L, back)
		if !headerConst(e, fr, L, st, phis, vals, iff) {
			if len(e.events) > oldEv {
				e.events = e.events[:oldEv]
			}
			for k, o := range e.oblig {
				if b, ok := oldBad[k]; ok {
					o.bad = b
				} else {
					o.bad = e.False
				}
			}
			return nil, false
		}
	}
	return nil, false
}

// headerConst tests whether the header condition evaluates to a constant.
func headerConst(e *E, fr *frame, L *loop, st *State, phis []ssa.Value, vals []*T, iff *ssa.If) bool {
	for _, ins := range L.header.Instrs {
		switch ins.(type) {
		case *ssa.Next:
			return false
		}
	}
	e.quiet++
	defer func() { e.quiet-- }()
	saved := map[ssa.Value]*T{}
	for _, ins := range L.header.Instrs {
		if v, ok := ins.(ssa.Value); ok {
			saved[v] = fr.env[v]
		}
	}
	defer func() {
		for k, v := range saved {
			if v == nil {
				delete(fr.env, k)
			} else {
				fr.env[k] = v
			}
		}
	}()
	e.bindPhis(fr, phis, vals)
	s := st.clone()
	for _, ins := range L.header.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.If:
		default:
			e.instr(fr, s, ins)
		}
	}
	if s.pc == e.False {
		return true
	}
	c := e.restrict(e.boolVal(e.val(fr, iff.Cond)), s.pc)
	if c != e.True && c != e.False {
		return false
	}
	return true
}

// ---------------------------------------------------------------- map ranges

func findMapIter(L *loop) *ssa.Next {
	for _, ins := range L.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			return n
		}
	}
	return nil
}

func (e *E) mapLoop(fr *frame, L *loop, nx *ssa.Next, st *State, phis []ssa.Value, vals []*T) ([]edge, bool) {
	it := e.val(fr, nx.Iter)
	if it.op != OApp || it.name != "iter" {
		return nil, false
	}
	m := it.args[0]
	e.record("maprange", st, nx.Pos(), fr.fn, m)
	if nx.IsString {
		if s, ok := m.isStr(); ok && len(s) <= 256 {
			var segs []segment
			for i, r := range s {
				segs = append(segs, segment{guard: e.True, key: e.intc(i), val: e.intc(int(r)), isMap: true})
			}
			return e.segments(fr, L, nil, nx, segs, st, phis, vals), true
		}
		return nil, false
	}
	c := e.mapContent(st, m)
	if e.api && c.op == OMap && c.name == "" && e.distinctKeys(c) {
		return e.segments(fr, L, nil, nx, e.mapSegs(c), st, phis, vals), true
	}
	if c.op == OMap && c.name == "" {
		// known entries: one guarded segment per entry
		allConst := true
		for i := 0; i < len(c.args); i += 2 {
			if c.args[i].op != OConst || (c.args[i+1].op == OSym && c.args[i+1].name == "deleted") {
				allConst = false
			}
		}
		if allConst {
			return e.segments(fr, L, nil, nx, e.mapSegs(c), st, phis, vals), true
		}
	}
	d := e.app("entries", c)
	seg := []segment{{guard: e.True, dom: d, key: e.app("elem", e.app("keys", c)), val: e.app("elem", e.app("vals", c)), isMap: true}}
	return e.segments(fr, L, nil, nx, seg, st, phis, vals), true
}

// distinctKeys reports a map whose entries are all present under different keys.
func (e *E) distinctKeys(c *T) bool {
	for i := 0; i+1 < len(c.args); i += 2 {
		if c.args[i+1].op == OSym && c.args[i+1].name == "deleted" {
			return false
		}
		for j := i + 2; j+1 < len(c.args); j += 2 {
			if e.eq(c.args[i], c.args[j]) != e.False {
				return false
			}
		}
	}
	return true
}

func (e *E) mapSegs(c *T) []segment {
	var out []segment
	for i := 0; i+1 < len(c.args); i += 2 {
		out = append(out, segment{guard: e.True, key: c.args[i], val: c.args[i+1], isMap: true})
	}
	if len(out) > 1 {
		e.mapHit = true
		if e.revMaps {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// segment is a part of an iteration space.
type segment struct {
	guard *T
	dom   *T // nil: exactly one element
	val   *T // element value (in terms of elem(dom))
	idx   *T
	seq   *T // sequence being indexed
	key   *T
	isMap bool
	body  []segment // nested parts sharing dom
}

// countedLoop handles for i := 0; i < N; i++ and range loops.
func (e *E) countedLoop(fr *frame, L *loop, ind *induction, st *State, phis []ssa.Value, vals []*T) []edge {
	// evaluate the header up to the bound
	if bi, ok := ind.bound.(ssa.Instruction); ok && L.blocks[bi.Block()] {
		e.quiet++
		s := st.clone()
		e.bindPhis(fr, phis, vals)
		for _, ins := range L.header.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if ins == bi {
				e.instr(fr, s, ins)
				break
			}
			e.instr(fr, s, ins)
		}
		e.quiet--
	}
	var bound *T
	var seqs []*T
	if call, ok := ind.bound.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && !isString(call.Call.Args[0].Type()) {
			arg := call.Call.Args[0]
			if _, isMap := arg.Type().Underlying().(*types.Map); !isMap {
				c := e.contentOf(st, e.val(fr, arg))
				if c.op == OSeq {
					seqs = append(seqs, c)
				}
				bound = e.seqLenLift(c)
			}
		}
	}
	if bound == nil {
		bound = e.val(fr, ind.bound)
	}
	var segs []segment
	switch {
	case len(seqs) == 1 && ind.start == nil && ind.first == 0:
		segs = e.seqSegments(seqs[0])
	case len(seqs) == 1 && ind.start == nil && ind.first > 0 && ind.first < 8 && e.leadingElems(seqs[0]) >= int(ind.first):
		segs = e.seqSegments(seqs[0])[ind.first:]
	default:
		start := e.intc(int(ind.first))
		if ind.start != nil {
			start = e.val(fr, ind.start)
		}
		n := e.bin("-", bound, start)
		d := e.app("range", n)
		if n.op == OApp && n.name == "len" && n.args[0].op != OSeq {
			d = n.args[0]
		}
		segs = []segment{{guard: e.True, dom: d, val: e.elemVar(d), idx: e.bin("+", e.idxVar(d), start)}}
		ind = &induction{phi: ind.phi, init: ind.init, start: ind.start, use: ind.use, off: ind.off, first: ind.first, cond: ind.cond, bound: ind.bound, exit: ind.exit, body: ind.body, endVal: bound}
	}
	return e.segments(fr, L, ind, nil, segs, st, phis, vals)
}

func (e *E) seqSegments(seq *T) []segment {
	var out []segment
	for i, p := range seq.args {
		s := segment{guard: p.args[0], seq: seq}
		// exact position known when all previous parts are unguarded elements
		exact := true
		off := 0
		for _, q := range seq.args[:i] {
			if e.and(q.args[0], p.args[0]) == e.False {
				continue // never there together
			}
			off++
			if q.op != OElem || q.args[0] != e.True {
				exact = false
			}
		}
		switch p.op {
		case OElem:
			s.val = p.args[1]
			if exact {
				s.idx = e.intc(off)
			} else {
				s.idx = e.app("pos", seq, e.intc(i))
			}
		case OSpread:
			s.dom = p.args[1]
			s.val = e.elemVar(s.dom)
			if exact && off == 0 {
				s.idx = e.idxVar(s.dom)
			} else if exact {
				s.idx = e.bin("+", e.idxVar(s.dom), e.intc(off))
			} else {
				s.idx = e.app("pos", seq, e.intc(i), e.idxVar(s.dom))
			}
		case OLoop:
			s.dom = p.args[1]
			if len(p.args[2].args) == 1 && p.args[2].args[0].op == OElem && p.args[2].args[0].args[0] == e.True {
				s.val = p.args[2].args[0].args[1]
				if exact && off == 0 {
					s.idx = e.idxVar(s.dom)
				} else {
					s.idx = e.app("pos", seq, e.intc(i), e.idxVar(s.dom))
				}
			} else {
				sub := e.seqSegments(p.args[2])
				for k := range sub {
					sub[k].seq = seq
					sub[k].idx = e.app("pos", seq, e.intc(i), e.intc(k), e.idxVar(s.dom))
				}
				s.body = sub
			}
		default:
			d := e.app("range", e.seqLen(seq))
			s.dom = d
			s.val = e.seqIndex(seq, e.idxVar(d))
			s.idx = e.idxVar(d)
		}
		out = append(out, s)
	}
	return out
}

// leadingElems counts the leading unguarded single elements.
func (e *E) leadingElems(seq *T) int {
	n := 0
	for _, p := range seq.args {
		if p.op != OElem || p.args[0] != e.True {
			break
		}
		n++
	}
	return n
}

// segments runs the loop body over consecutive segments.
func (e *E) segments(fr *frame, L *loop, ind *induction, nx *ssa.Next, segs []segment, st *State, phis []ssa.Value, vals []*T) []edge {
	var outs []edge
	total := e.intc(0)
	for _, s := range segs {
		if st.pc == e.False {
			break
		}
		e.checkTime()
		var o []edge
		o, st, vals = e.runSegment(fr, L, ind, nx, s, st, phis, vals)
		outs = append(outs, o...)
		if s.seq != nil {
			total = e.seqLen(s.seq)
		} else if s.dom != nil {
			total = e.lenOf(s.dom)
		}
	}
	if st == nil || st.pc == e.False {
		return outs
	}
	// normal exit through the header
	for i, p := range phis {
		if ind != nil && p == ssa.Value(ind.phi) {
			if ind.endVal != nil {
				// max(start, bound) is approximated by the bound
				vals[i] = e.bin("+", ind.endVal, e.intc(int(-ind.off)))
				continue
			}
			vals[i] = e.bin("+", total, e.intc(int(-ind.off)))
		}
	}
	e.bindPhis(fr, phis, vals)
	o := e.headerExit(fr, L, st, ind, nx)
	outs = append(outs, o...)
	return outs
}

// headerExit evaluates the header with its test false.
func (e *E) headerExit(fr *frame, L *loop, st *State, ind *induction, nx *ssa.Next) []edge {
	h := L.header
	s := st.clone()
	e.quiet++
	for _, ins := range h.Instrs {
		switch y := ins.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return:
		case *ssa.Next:
			fr.env[y] = e.tuple(e.False, e.Nil, e.Nil)
		default:
			e.instr(fr, s, ins)
		}
	}
	e.quiet--
	s.pc = st.pc
	var out []edge
	for _, t := range h.Succs {
		if !L.blocks[t] {
			out = append(out, edge{from: h, to: t, st: s})
		}
	}
	_, ex := e.splitOuts(fr, L, out)
	return ex
}

// bodyOnce runs header (test true) and body once; returns raw out edges.
func (e *E) bodyOnce(fr *frame, L *loop, ind *induction, nx *ssa.Next, s segment, st *State, phis []ssa.Value, vals []*T) []edge {
	var idxT *T
	if ind != nil {
		idxT = s.idx
		if idxT == nil {
			idxT = e.sym("idx?", nil)
		}
		for i, p := range phis {
			if p == ssa.Value(ind.phi) {
				vals = append([]*T{}, vals...)
				vals[i] = e.bin("+", idxT, e.intc(int(-ind.off)))
			}
		}
		if s.seq != nil {
			e.idxBind[idxT.id] = append(e.idxBind[idxT.id], idxBinding{s.seq, s.val})
			defer func() {
				b := e.idxBind[idxT.id]
				e.idxBind[idxT.id] = b[:len(b)-1]
			}()
		}
	}
	e.bindPhis(fr, phis, vals)
	// header instructions with the test forced
	h := L.header
	cur := st.clone()
	for _, ins := range h.Instrs {
		switch y := ins.(type) {
		case *ssa.Phi:
		case *ssa.Next:
			fr.env[y] = e.tuple(e.True, s.key, s.val)
		case *ssa.If:
			var outs []edge
			if ind != nil || nx != nil {
				tgt := h.Succs[0]
				if !L.blocks[tgt] {
					tgt = h.Succs[1]
				}
				outs = []edge{{from: h, to: tgt, st: cur}}
			} else {
				outs = e.evalIf(fr, h, y, cur)
			}
			return e.evalFrom(fr, L, outs)
		case *ssa.Jump:
			return e.evalFrom(fr, L, []edge{{from: h, to: h.Succs[0], st: cur}})
		case *ssa.Return:
			var rv []*T
			for _, r := range y.Results {
				rv = append(rv, e.val(fr, r))
			}
			return []edge{{from: h, to: nil, st: cur, ret: rv}}
		default:
			e.instr(fr, cur, ins)
		}
		if cur.pc == e.False {
			return nil
		}
	}
	return nil
}

func (e *E) evalIf(fr *frame, b *ssa.BasicBlock, x *ssa.If, st *State) []edge {
	c := e.restrict(e.boolVal(e.val(fr, x.Cond)), st.pc)
	tpc := e.and(st.pc, c)
	fpc := e.and(st.pc, e.not(c))
	var out []edge
	if tpc != e.False {
		out = append(out, edge{from: b, to: b.Succs[0], st: st.with(tpc)})
	}
	if fpc != e.False {
		out = append(out, edge{from: b, to: b.Succs[1], st: st.with(fpc)})
	}
	return out
}

// evalFrom continues inside loop L from the given edges.
func (e *E) evalFrom(fr *frame, L *loop, es []edge) []edge {
	pending := map[*ssa.BasicBlock][]edge{}
	var outs []edge
	dispatch := func(es []edge) {
		for _, ed := range es {
			if ed.st.pc == e.False {
				continue
			}
			if ed.to == nil || ed.to == L.header || !L.blocks[ed.to] {
				outs = append(outs, ed)
				continue
			}
			pending[ed.to] = append(pending[ed.to], ed)
		}
	}
	// exits straight from the header need their live-outs captured now
	dispatch(es)
	skip := map[*ssa.BasicBlock]bool{L.header: true}
	for _, b := range fr.rpo {
		if !L.blocks[b] || skip[b] {
			continue
		}
		pe := pending[b]
		if il := fr.loops[b]; il != nil && il != L {
			for x := range il.blocks {
				skip[x] = true
			}
			if len(pe) > 0 {
				dispatch(e.evalLoop(fr, il, pe))
			}
			continue
		}
		if len(pe) == 0 {
			continue
		}
		st := e.enterBlock(fr, b, pe)
		dispatch(e.evalBlock(fr, b, st, false))
	}
	return outs
}

// runSegment executes one segment; returns exits and the state/phis after it.
func (e *E) runSegment(fr *frame, L *loop, ind *induction, nx *ssa.Next, s segment, st *State, phis []ssa.Value, vals []*T) ([]edge, *State, []*T) {
	g := e.restrict(s.guard, st.pc)
	if g == e.False {
		return nil, st, vals
	}
	var skipSt *State
	run := st
	if g != e.True {
		run = st.with(e.and(st.pc, g))
		skipSt = st.with(e.and(st.pc, e.not(g)))
		if run.pc == e.False {
			return nil, st, vals
		}
	} else {
		run = st.clone()
	}
	var outs []edge
	var nst *State
	var nvals []*T
	if s.dom == nil {
		res := e.bodyOnce(fr, L, ind, nx, s, run, phis, vals)
		back, exits := e.splitOuts(fr, L, res)
		outs = exits
		if len(back) > 0 {
			nst, nvals = e.latch(fr, L, back)
		}
	} else {
		subs := s.body
		if subs == nil {
			subs = []segment{{guard: e.True, val: s.val, idx: s.idx, seq: s.seq, key: s.key, isMap: s.isMap}}
		}
		outs, nst, nvals = e.abstractSegment(fr, L, ind, nx, s.dom, subs, run, phis, vals)
	}
	if skipSt != nil && skipSt.pc != e.False {
		if nst == nil {
			return outs, skipSt, vals
		}
		nst, nvals = e.mergeStates(nst, nvals, skipSt, vals)
	}
	if nst == nil {
		nst = &State{pc: e.False, heap: map[int]*T{}}
		nvals = vals
	}
	return outs, nst, nvals
}

func (e *E) abstractLoop(fr *frame, L *loop, ind *induction, d, val *T, st *State, phis []ssa.Value, vals []*T, nx *ssa.Next) []edge {
	// loop with an opaque continuation test
	outs, nst, nvals := e.abstractSegment(fr, L, nil, nil, d, []segment{{guard: e.True, val: e.elemVar(d), idx: e.idxVar(d)}}, st.clone(), phis, vals)
	if nst != nil && nst.pc != e.False {
		// iterations that end at the header test are already exits; the
		// fall-through state only arises for zero-exit approximations
		hasHeaderExit := false
		for _, o := range outs {
			if o.from == L.header {
				hasHeaderExit = true
			}
		}
		if !hasHeaderExit {
			e.bindPhis(fr, phis, nvals)
			outs = append(outs, e.headerExit(fr, L, nst, nil, nil)...)
		}
	}
	return outs
}

type locKey struct {
	phi  int // phi index, or -1
	root int // heap root id
	path string
}

type mloc struct {
	key  locKey
	mu   *T // the loop-carried unknown
	init *T
	path []int
	seq  bool // content is a sequence
}

// abstractSegment models zero or more iterations over domain d.
func (e *E) abstractSegment(fr *frame, L *loop, ind *induction, nx *ssa.Next, d *T, subs []segment, st *State, phis []ssa.Value, vals []*T) ([]edge, *State, []*T) {
	nonEmpty := e.not(e.emptyDom(d))
	if d.op == OApp && (len(d.name) > 5 && d.name[:5] == "iter@" || d.name == "entries") {
		nonEmpty = e.atom(e.app("nonempty", d))
	}
	entryPC := e.and(st.pc, nonEmpty)
	if entryPC == e.False {
		return nil, st, vals
	}
	entryPC = e.and(entryPC, e.instFacts(st.pc, d))
	if e.active[d.id] > 0 {
		d2 := e.app("again", d)
		m := map[int]*T{e.elemVar(d).id: e.elemVar(d2), e.idxVar(d).id: e.idxVar(d2)}
		ns := make([]segment, len(subs))
		for i, s := range subs {
			ns[i] = s
			if s.val != nil {
				ns[i].val = e.subst(s.val, m)
			}
			if s.idx != nil {
				ns[i].idx = e.subst(s.idx, m)
			}
		}
		subs = ns
		d = d2
	}
	e.active[d.id]++
	defer func() { e.active[d.id]-- }()

	mus := map[locKey]*mloc{}
	var order []locKey
	savedAlloc := e.allocN
	_ = savedAlloc

	var body func(final bool) (back *State, bvals []*T, exits []edge, start *State, svals []*T)
	body = func(final bool) (*State, []*T, []edge, *State, []*T) {
		s := st.with(entryPC)
		v := append([]*T{}, vals...)
		for _, k := range order {
			m := mus[k]
			if k.phi >= 0 {
				if m.seq {
					v[k.phi] = e.muSlice(s, m)
				} else {
					v[k.phi] = m.mu
				}
			} else {
				root := e.byID(k.root)
				cur := s.heap[root.id]
				var nv *T
				if m.seq {
					nv = e.seq(e.spread(e.True, m.mu))
				} else if m.init.op == OSlice {
					nv = e.muSlice(s, m)
				} else {
					nv = m.mu
				}
				s.heap[root.id] = setPath(e, cur, m.path, nv)
			}
		}
		start, svals := s.clone(), append([]*T{}, v...)
		cur, cv := s, v
		var exits []edge
		for _, sub := range subs {
			g := e.restrict(sub.guard, cur.pc)
			if g == e.False {
				continue
			}
			run := cur
			var sk *State
			if g != e.True {
				run = cur.with(e.and(cur.pc, g))
				sk = cur.with(e.and(cur.pc, e.not(g)))
			}
			var nst *State
			var nv []*T
			if sub.dom != nil {
				inner := sub
				inner.guard = e.True
				var o []edge
				o, nst, nv = e.runSegment(fr, L, ind, nx, inner, run, phis, cv)
				exits = append(exits, o...)
			} else {
				res := e.bodyOnce(fr, L, ind, nx, sub, run, phis, cv)
				back, ex := e.splitOuts(fr, L, res)
				exits = append(exits, ex...)
				if len(back) > 0 {
					nst, nv = e.latch(fr, L, back)
				}
			}
			switch {
			case nst == nil && sk == nil:
				return nil, nil, exits, start, svals
			case nst == nil:
				cur, _ = sk, cv
			case sk == nil || sk.pc == e.False:
				cur, cv = nst, nv
			default:
				cur, cv = e.mergeStates(nst, nv, sk, cv)
			}
		}
		return cur, cv, exits, start, svals
	}

	var back *State
	var bvals []*T
	var exits []edge
	var start *State
	var svals []*T
	e.quiet++
	for round := 0; round < 8; round++ {
		back, bvals, exits, start, svals = body(false)
		if back == nil {
			break
		}
		changed := false
		// phis
		for i := range phis {
			if ind != nil && phis[i] == ssa.Value(ind.phi) {
				continue
			}
			k := locKey{phi: i}
			if mus[k] == nil && !e.sameVal(back, bvals[i], start, svals[i]) {
				mus[k] = e.newMu(k, vals[i], nil, phis[i].Type(), vals[i].op == OSlice || vals[i].op == ONil && isSlice(phis[i].Type()) || isSlice(phis[i].Type()))
				order = append(order, k)
				changed = true
			}
		}
		// heap cells that existed before the loop
		var ids []int
		for id := range st.heap {
			ids = append(ids, id)
		}
		for id := range back.heap {
			if _, ok := st.heap[id]; !ok {
				if e.symRoot(id) != nil {
					st.heap[id] = e.load(st, e.symRoot(id))
					ids = append(ids, id)
					changed = true
				}
			}
		}
		sort.Ints(ids)
		for _, id := range ids {
			b0, ok := start.heap[id]
			if !ok {
				continue
			}
			b1 := back.heap[id]
			if b1 == nil || b1 == b0 {
				continue
			}
			for _, p := range e.diffPaths(back, b1, start, b0, nil) {
				k := locKey{phi: -1, root: id, path: fmt.Sprint(p)}
				if mus[k] != nil {
					continue
				}
				iv := getPath(e, st.heap[id], p)
				mus[k] = e.newMu(k, iv, p, nil, iv.op == OSeq)
				order = append(order, k)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	e.quiet--
	// final run with recording on
	back, bvals, exits, start, svals = body(true)
	ev, iv := e.elemVar(d), e.idxVar(d)

	// closed forms of integer counters; they may occur in other recurrences
	cm := map[int]*T{}
	for _, k := range order {
		m := mus[k]
		if back == nil || m.seq || m.init.op == OSlice {
			continue
		}
		lv := e.restrictDeep(e.latchVal(m, back, bvals), back.pc)
		if lv.op == OBin && lv.name == "+" && lv.args[0] == m.mu && len(lv.args[1].vars) == 0 {
			if n, ok := lv.args[1].isInt(); ok {
				in := e.bin("+", m.init, e.bin("*", iv, e.intc(int(n))))
				if i0, ok := m.init.isInt(); ok && i0 == 0 && n == 1 {
					in = iv
				}
				cm[m.mu.id] = in
			}
		}
		if lv.op == OIte {
			if g, r, ok := e.splitMu(lv, m.mu); ok && !hasVar(g, m.mu.id) && r.op == OBin && r.name == "+" && r.args[0] == m.mu {
				if n, ok := r.args[1].isInt(); ok && n == 1 {
					cm[m.mu.id] = e.bin("+", m.init, e.app("countbefore", iv, g))
					e.noteType(cm[m.mu.id], types.Typ[types.Int])
				}
			}
		}
	}

	// early exits
	gx := e.False
	for _, x := range exits {
		gx = e.or(gx, e.subst(e.restrict(x.st.pc, entryPC), cm))
	}
	var outs []edge
	anyX := e.False
	if len(exits) > 0 {
		anyX = e.anyOf(d, gx)
		// conditions that depend on loop-carried state are opaque
		fm := map[int]*T{ev.id: e.app("first", d, gx), iv.id: e.app("firstidx", d, gx)}
		if gx == e.True || (!hasVar(gx, ev.id) && !hasVar(gx, iv.id) && len(gx.vars) == 0) {
			fm[ev.id] = e.seqIndex(d, e.intc(0))
			fm[iv.id] = e.intc(0)
		}
		if d.op == OApp && d.name == "entries" {
			kd, vd := e.app("keys", d.args[0]), e.app("vals", d.args[0])
			fm[e.elemVar(kd).id] = e.app("firstkey", d, gx)
			fm[e.elemVar(vd).id] = e.app("firstval", d, gx)
		}
		until := e.app("until", d, gx)
		for _, k := range order {
			m := mus[k]
			if m.seq || m.init.op == OSlice {
				continue
			}
			e.noteFold(d)
			fm[m.mu.id] = e.app("mid", m.init, d, gx, e.intc(k.phi))
			if c, ok := cm[m.mu.id]; ok {
				fm[m.mu.id] = e.subst(c, map[int]*T{iv.id: fm[iv.id]})
			}
			if gx == e.True {
				fm[m.mu.id] = m.init
			}
		}
		for _, x := range exits {
			rel := e.subst(e.restrict(x.st.pc, entryPC), cm)
			cond := e.restrict(rel, gx)
			pc := e.and(e.and(st.pc, anyX), e.subst(cond, fm))
			ns := x.st.clone()
			ns.pc = pc
			e.gcHeap(ns, st, x)
			for id, c := range ns.heap {
				if len(c.vars) > 0 {
					c = e.restrictDeep(c, x.st.pc)
					ns.heap[id] = e.substMuSeq(e.subst(c, fm), mus, order, until, st, back, bvals, gx)
				}
			}
			nx := edge{from: x.from, to: x.to, st: ns, vals: map[ssa.Value]*T{}}
			for v, t := range x.vals {
				nx.vals[v] = e.subst(e.restrictDeep(t, x.st.pc), fm)
			}
			for _, t := range x.ret {
				nx.ret = append(nx.ret, e.subst(e.restrictDeep(t, x.st.pc), fm))
			}
			outs = append(outs, nx)
		}
	}
	// normal completion
	if back == nil {
		// every iteration exits; completion only when d is empty
		n := st.with(e.and(st.pc, e.not(nonEmpty)))
		return outs, n, vals
	}
	nst := st.clone()
	nst.pc = e.and(st.pc, e.not(anyX))
	nvals := append([]*T{}, vals...)
	// objects allocated inside the loop persist as generic representatives;
	// every iteration completed normally
	cont := e.restrict(back.pc, entryPC)
	for id, c := range back.heap {
		if _, ok := nst.heap[id]; !ok {
			if len(exits) > 0 {
				c = e.simp(c, cont)
			}
			nst.heap[id] = c
		}
	}
	fin := map[int]*T{}
	for _, k := range order {
		m := mus[k]
		lv := e.latchVal(m, back, bvals)
		if len(exits) > 0 {
			if lv.op == OSlice {
				if c, ok := back.heap[lv.args[0].id]; ok {
					back.heap[lv.args[0].id] = e.simp(c, cont)
				}
			} else {
				lv = e.simp(lv, cont)
			}
		}
		f := e.solve(m, d, lv, back, nst, entryPC, cm)
		if k.phi >= 0 {
			nvals[k.phi] = f
		} else {
			nst.heap[k.root] = setPath(e, nst.heap[k.root], m.path, f)
		}
		fin[m.mu.id] = f
	}
	if len(cm) > 0 {
		for id, c := range nst.heap {
			if len(c.vars) > 0 {
				nst.heap[id] = e.subst(c, cm)
			}
		}
		for i := range nvals {
			nvals[i] = e.subst(nvals[i], cm)
		}
	}
	return outs, nst, nvals
}

// restrictDeep simplifies a value under a path condition, looking through
// tuples, structs and interfaces.
func (e *E) restrictDeep(v, c *T) *T {
	switch v.op {
	case OIte:
		return e.restrict(v, c)
	case OTuple, OStruct, OIface:
		ch := false
		as := make([]*T, len(v.args))
		for i, a := range v.args {
			as[i] = e.restrictDeep(a, c)
			if as[i] != a {
				ch = true
			}
		}
		if ch {
			return e.mk(&T{op: v.op, name: v.name, idx: v.idx, typ: v.typ, args: as})
		}
	}
	return v
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (e *E) newMu(k locKey, init *T, path []int, t types.Type, seq bool) *mloc {
	e.muN++
	m := &mloc{key: k, init: init, path: path, seq: seq}
	m.mu = e.sym(fmt.Sprintf("mu#%d", e.muN), nil)
	if t != nil {
		e.noteType(m.mu, t)
	} else if init.op == OConst {
		if _, ok := init.isStr(); ok {
			e.noteType(m.mu, types.Typ[types.String])
		}
	}
	return m
}

func (e *E) muSlice(s *State, m *mloc) *T {
	a := e.newAlloc("muarr", nil)
	s.heap[a.id] = e.seq(e.spread(e.True, m.mu))
	return e.mk(&T{op: OSlice, args: []*T{a, e.False}})
}

func (e *E) latchVal(m *mloc, back *State, bvals []*T) *T {
	if m.key.phi >= 0 {
		return bvals[m.key.phi]
	}
	return getPath(e, back.heap[m.key.root], m.path)
}

// sameVal compares values across states (slices by content).
func (e *E) sameVal(s1 *State, a *T, s2 *State, b *T) bool {
	if a == b {
		if a.op == OSlice {
			return e.contentOf(s1, a) == e.contentOf(s2, b)
		}
		return true
	}
	if sliceLike(a) && sliceLike(b) && (a.op == OSlice || b.op == OSlice) {
		return e.contentOf(s1, a) == e.contentOf(s2, b)
	}
	return false
}

func (e *E) diffPaths(s1 *State, a *T, s2 *State, b *T, pre []int) [][]int {
	if e.sameVal(s1, a, s2, b) {
		return nil
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		var out [][]int
		for i := range a.args {
			out = append(out, e.diffPaths(s1, a.args[i], s2, b.args[i], append(append([]int{}, pre...), i))...)
		}
		return out
	}
	return [][]int{append([]int{}, pre...)}
}

func getPath(e *E, v *T, p []int) *T {
	for _, i := range p {
		v = e.project(v, i)
	}
	return v
}

func setPath(e *E, v *T, p []int, nv *T) *T {
	if len(p) == 0 {
		return nv
	}
	if v.op != OStruct {
		return v
	}
	fs := append([]*T{}, v.args...)
	fs[p[0]] = setPath(e, fs[p[0]], p[1:], nv)
	return e.strct(v.typ, fs)
}

func (e *E) substMuSeq(c *T, mus map[locKey]*mloc, order []locKey, until *T, st, back *State, bvals []*T, gx *T) *T {
	m := map[int]*T{}
	for _, k := range order {
		ml := mus[k]
		if ml.seq || ml.init.op == OSlice {
			var init *T
			if ml.seq && ml.init.op == OSeq {
				init = ml.init
			} else {
				init = e.contentOf(st, ml.init)
			}
			if gx == e.True {
				m[ml.mu.id] = init
			} else {
				e.noteFold(until.args[0])
				m[ml.mu.id] = e.app("upto", init, until)
			}
		}
	}
	return e.subst(c, m)
}

// solve computes the value of a loop-carried location after the loop.
func (e *E) solve(m *mloc, d, lv *T, back, out *State, entryPC *T, cm map[int]*T) *T {
	mu := m.mu
	// sequences
	if lv.op == OSlice || (lv.op == OSeq && m.seq) || (m.seq && lv.op == ONil) {
		var c, init *T
		if lv.op == OSeq {
			c = lv
			init = m.init
		} else {
			c = e.contentOf(back, lv)
			init = e.contentOf(out, m.init)
		}
		fin := e.solveSeq(mu, d, c, init, cm)
		if lv.op == OSeq {
			return fin
		}
		return e.newSlice(out, fin)
	}
	// strings
	if parts := catParts(lv); lv.op == OCat && parts[0] == mu {
		rest := e.cat(parts[1:]...)
		if !hasVar(rest, mu.id) {
			return e.cat(m.init, e.loopCat(d, e.subst(rest, cm)))
		}
	}
	if lv.op == OIte {
		// conditional accumulation
		if g, r, ok := e.splitMu(lv, mu); ok {
			if r.op == OCat && r.args[0] == mu {
				rest := e.cat(r.args[1:]...)
				if !hasVar(rest, mu.id) && !hasVar(g, mu.id) {
					return e.cat(m.init, e.loopCat(d, e.ite(g, rest, e.str(""))))
				}
			}
			if !hasVar(r, mu.id) && !hasVar(g, mu.id) {
				any := e.anyOf(d, g)
				last := e.substElem(r, d, e.app("last", d, g), e.app("lastidx", d, g))
				return e.ite(any, last, m.init)
			}
			if r.op == OBin && r.name == "+" && r.args[0] == mu && !hasVar(g, mu.id) {
				if n, ok := r.args[1].isInt(); ok && n == 1 {
					return e.bin("+", m.init, e.app("count", d, g))
				}
			}
		}
	}
	// counters
	if lv.op == OBin && lv.name == "+" && lv.args[0] == mu && len(lv.args[1].vars) == 0 {
		n := lv.args[1]
		if k, ok := n.isInt(); ok && k == 1 {
			return e.bin("+", m.init, e.lenOf(d))
		}
		return e.bin("+", m.init, e.bin("*", e.lenOf(d), n))
	}
	if !hasVar(lv, mu.id) {
		// assigned every iteration: last one wins
		last := e.substElem(lv, d, e.app("last", d, e.True), e.app("lastidx", d, e.True))
		return e.ite(e.not(e.emptyDom(d)), last, m.init)
	}
	e.noteFold(d)
	return e.app("fold", d, m.init, mu, lv)
}

func (e *E) noteFold(d *T) {
	if k := e.listKey(d); k != "" {
		e.folds[k] = true
	}
	if d.op == OApp && d.name == "range" {
		e.noteFoldsIn(d)
	}
}

// noteFoldsIn marks the lists a term depends on.
func (e *E) noteFoldsIn(t *T) {
	seen := map[int]bool{}
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if k := e.listKey(x); k != "" {
			e.folds[k] = true
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
}

// splitMu splits Ite(g, r, mu).
func (e *E) splitMu(lv, mu *T) (g, r *T, ok bool) {
	g = e.False
	for _, l := range e.leaves(lv) {
		if l.v == mu {
			continue
		}
		g = e.or(g, l.g)
	}
	if g == e.False || g == e.True {
		return nil, nil, false
	}
	r = e.restrict(lv, g)
	for _, l := range e.leaves(r) {
		if l.v == mu {
			return nil, nil, false
		}
	}
	return g, r, true
}

func (e *E) solveSeq(mu, d, c, init *T, cm map[int]*T) *T {
	if c.op == OSeq && len(c.args) >= 1 {
		p := c.args[0]
		if p.op == OSpread && p.args[0] == e.True && p.args[1] == mu {
			rest := e.seq(c.args[1:]...)
			if len(c.args) == 1 {
				return init
			}
			rest = e.subst(rest, cm)
			if !hasVar(rest, mu.id) {
				return e.seq(append(append([]*T{}, init.args...), e.loopPart(e.True, d, rest))...)
			}
		}
		// prepend
		q := c.args[len(c.args)-1]
		if q.op == OSpread && q.args[0] == e.True && q.args[1] == mu {
			rest := e.seq(c.args[:len(c.args)-1]...)
			if !hasVar(rest, mu.id) {
				return e.seq(append([]*T{e.loopPart(e.True, e.app("reverse", d), rest)}, init.args...)...)
			}
		}
		// index store over the whole domain
		if p.op == OUpd && len(c.args) == 1 {
			bs := p.args[1]
			if bs.op == OSeq && len(bs.args) == 1 && bs.args[0].op == OSpread && bs.args[0].args[1] == mu {
				ix := e.subst(p.args[2], cm)
				v := e.subst(p.args[3], cm)
				// the value may read the slot being written
				if ix == e.idxVar(d) && !hasVar(v, mu.id) && e.seqLen(init) == e.lenOf(d) {
					return e.seq(e.loopPart(e.True, d, e.seq(e.elem(e.True, v))))
				}
				if ix == e.idxVar(d) && e.seqLen(init) == e.lenOf(d) {
					// v = f(old slot)
					old := e.app("index", mu, ix)
					ov := e.seqIndex(init, ix)
					nv := e.subst2(v, old, ov)
					if !hasVar(nv, mu.id) {
						return e.seq(e.loopPart(e.True, d, e.seq(e.elem(e.True, nv))))
					}
				}
			}
		}
	}
	e.noteFold(d)
	return e.seq(e.spread(e.True, e.app("fold", d, init, mu, c)))
}

// subst2 replaces an arbitrary subterm.
func (e *E) subst2(t, from, to *T) *T {
	memo := map[int]*T{}
	var rec func(x *T) *T
	rec = func(x *T) *T {
		if x == from {
			return to
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		ch := false
		as := make([]*T, len(x.args))
		for i, a := range x.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = e.rebuild(x, as)
		}
		memo[x.id] = r
		return r
	}
	return rec(t)
}

// gcHeap drops the objects of an early exit that are unreachable from its
// results and from objects older than the loop.
func (e *E) gcHeap(ns, before *State, x edge) {
	seen := map[int]bool{}
	var work []*T
	push := func(t *T) {
		if t != nil && !seen[t.id] {
			seen[t.id] = true
			work = append(work, t)
		}
	}
	for id := range before.heap {
		push(e.byID(id))
		push(ns.heap[id])
	}
	var live map[*ssa.BasicBlock]bool
	if x.to != nil {
		live = map[*ssa.BasicBlock]bool{x.to: true}
		q := []*ssa.BasicBlock{x.to}
		for len(q) > 0 {
			b := q[len(q)-1]
			q = q[:len(q)-1]
			for _, s := range b.Succs {
				if !live[s] {
					live[s] = true
					q = append(q, s)
				}
			}
		}
	}
	for v, t := range x.vals {
		used := live == nil || v.Referrers() == nil
		if !used {
			for _, r := range *v.Referrers() {
				if live[r.Block()] {
					used = true
					break
				}
			}
		}
		if used {
			push(t)
		}
	}
	for _, t := range x.ret {
		push(t)
	}
	for id, c := range ns.heap {
		if e.symRoot(id) != nil {
			push(e.byID(id))
			push(c)
		}
	}
	for _, d := range ns.defers {
		push(d.fn)
		for _, a := range d.args {
			push(a)
		}
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range t.args {
			push(a)
		}
		if c, ok := ns.heap[t.id]; ok {
			push(c)
		}
	}
	for id := range ns.heap {
		t := e.byID(id)
		if seen[id] || t.op != OAlloc {
			continue
		}
		delete(ns.heap, id)
	}
}

// instFacts returns what pc says about every element of d: for each
// universally quantified fact, its instance for the generic element.
func (e *E) instFacts(pc, d *T) *T {
	r := e.True
	if pc.op != OIte {
		return r
	}
	seen := map[int]bool{}
	var atoms []*T
	var rec func(x *T)
	rec = func(x *T) {
		if x.op != OIte || seen[x.id] {
			return
		}
		seen[x.id] = true
		a := x.args[0]
		if a.op == OApp && a.name == "any" && a.args[0] == d && !seen[-a.id] {
			seen[-a.id] = true
			atoms = append(atoms, a)
		}
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(pc)
	for _, a := range atoms {
		if e.and(pc, e.atom(a)) == e.False {
			r = e.and(r, e.not(a.args[1]))
		}
	}
	return r
}

// simp simplifies a value everywhere under the condition c.
func (e *E) simp(v, c *T) *T {
	if c == e.True || c == e.False {
		return v
	}
	memo := map[int]*T{}
	var rec func(x *T) *T
	rec = func(x *T) *T {
		if len(x.args) == 0 || x.op == OAlloc {
			return x
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		r := x
		if x.op == OIte {
			r = e.restrict(x, c)
			if r.op == OIte {
				r = e.lift(r, rec)
			} else {
				r = rec(r)
			}
		} else if x.op != OEq && x.op != OLt && x.op != OTypeIs {
			ch := false
			as := make([]*T, len(x.args))
			for i, a := range x.args {
				as[i] = rec(a)
				if as[i] != a {
					ch = true
				}
			}
			if ch {
				if x.op == OSeq {
					var ps []*T
					for _, p := range as {
						if p.op >= OElem && p.op <= OUpd && p.args[0] == e.False {
							continue
						}
						ps = append(ps, p)
					}
					as = ps
				}
				r = e.rebuild(x, as)
			}
		}
		memo[x.id] = r
		return r
	}
	return rec(v)
}
