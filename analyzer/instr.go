package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func numFields(t types.Type) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.NumFields()
	}
	return 0
}

func (e *E) fieldAddr(p *T, i, n int) *T {
	if p.op == OIte {
		return e.lift(p, func(x *T) *T { return e.fieldAddr(x, i, n) })
	}
	if p.op == ONil || p.op == OTop {
		return e.top("fieldaddr", p)
	}
	return e.mk(&T{op: OFieldAddr, idx: i, name: fmt.Sprintf("%d", n), args: []*T{p}})
}

func (e *E) instr(fr *frame, st *State, in ssa.Instruction) {
	set := func(v ssa.Value, t *T) { fr.env[v] = t }
	V := func(v ssa.Value) *T { return e.val(fr, v) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		a := e.newAlloc("o", et)
		st.heap[a.id] = e.zero(et)
		set(x, a)
	case *ssa.BinOp:
		set(x, e.binop(fr, st, x))
	case *ssa.UnOp:
		v := V(x.X)
		switch x.Op {
		case token.MUL:
			e.checkNil(fr, st, x.Pos(), v, "nil pointer dereference")
			r := e.load(st, v)
			if r.op == OApp || r.op == OSym {
				e.noteType(r, x.Type())
			}
			set(x, r)
		case token.NOT:
			set(x, e.not(e.boolVal(v)))
		case token.SUB:
			set(x, e.lift(v, func(y *T) *T {
				if y.op == OConst {
					return e.constant(constant.UnaryOp(token.SUB, y.cv, 0), nil)
				}
				return e.app("neg", y)
			}))
		case token.ARROW:
			set(x, e.top("recv"))
		default:
			set(x, e.app("un:"+x.Op.String(), v))
		}
	case *ssa.Call:
		set(x, e.callInstr(fr, st, x))
	case *ssa.Defer:
		f, args := e.calleeArgs(fr, x.Common())
		st.defers = append(append([]deferred{}, st.defers...), deferred{g: e.True, call: x, fn: f, args: args})
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			e.runUnder(st, ds[i].g, func(s *State) {
				e.doCall(fr, s, ds[i].call, ds[i].fn, ds[i].args)
			})
		}
	case *ssa.Go:
		e.record("go", st, x.Pos(), fr.fn)
	case *ssa.ChangeInterface:
		set(x, V(x.X))
	case *ssa.ChangeType:
		set(x, V(x.X))
	case *ssa.Convert:
		if e.api {
			if r := e.convertBytes(st, x, V(x.X)); r != nil {
				set(x, r)
				return
			}
		}
		set(x, e.convert(x, V(x.X)))
	case *ssa.MultiConvert:
		set(x, V(x.X))
	case *ssa.Extract:
		set(x, e.extract(V(x.Tuple), x.Index))
	case *ssa.Field:
		set(x, e.project(V(x.X), x.Field))
	case *ssa.FieldAddr:
		p := V(x.X)
		e.checkNil(fr, st, x.Pos(), p, "nil pointer dereference (field)")
		set(x, e.fieldAddr(e.restrictNonNil(st, p), x.Field, numFields(x.X.Type())))
	case *ssa.Index:
		v, i := V(x.X), V(x.Index)
		if isString(x.X.Type()) {
			e.checkBounds(fr, st, x.Pos(), e.strLen(v), i)
			set(x, e.strIndex(v, i))
		} else {
			set(x, e.seqIndex(e.contentOf(st, v), i))
		}
	case *ssa.IndexAddr:
		b, i := V(x.X), V(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			if c := e.contentOf(st, b); !e.boundIdx(c, i) {
				e.checkBounds(fr, st, x.Pos(), e.seqLenLift(c), i)
			}
			if b.op == OApp || b.op == OSym {
				e.noteType(b, x.X.Type())
			}
			b = e.lift(b, func(y *T) *T {
				if y.op == OSlice {
					return y.args[0]
				}
				return y
			})
		} else {
			e.checkNil(fr, st, x.Pos(), b, "nil array pointer")
			if at, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := at.Elem().Underlying().(*types.Array); ok {
					e.checkBounds(fr, st, x.Pos(), e.intc(int(arr.Len())), i)
				}
			}
		}
		set(x, e.lift2(b, i, func(p, j *T) *T {
			if p.op == ONil || p.op == OTop {
				return e.top("indexaddr", p)
			}
			return e.mk(&T{op: OIndexAddr, args: []*T{p, j}})
		}))
	case *ssa.Lookup:
		m, k := V(x.X), V(x.Index)
		if isString(x.X.Type()) {
			set(x, e.strIndex(m, k))
			return
		}
		set(x, e.mapLookup(st, m, k, x.X.Type().Underlying().(*types.Map).Elem(), x.CommaOk))
	case *ssa.MakeClosure:
		var bs []*T
		for _, b := range x.Bindings {
			bs = append(bs, V(b))
		}
		set(x, e.mk(&T{op: OClosure, fn: x.Fn.(*ssa.Function), args: bs}))
	case *ssa.MakeInterface:
		set(x, e.iface(x.X.Type(), V(x.X)))
	case *ssa.MakeMap:
		a := e.newAlloc("map", x.Type())
		st.heap[a.id] = e.mk(&T{op: OMap})
		set(x, a)
	case *ssa.MakeSlice:
		n := V(x.Len)
		z := e.zero(x.Type().Underlying().(*types.Slice).Elem())
		var c *T
		if k, ok := n.isInt(); ok && k <= 64 {
			var ps []*T
			for i := 0; i < int(k); i++ {
				ps = append(ps, e.elem(e.True, z))
			}
			c = e.seq(ps...)
		} else {
			c = e.seq(e.mk(&T{op: OFill, args: []*T{e.True, n, z}}))
		}
		s := e.newSlice(st, c)
		if k, ok := n.isInt(); e.api && ok {
			// room for more: appending writes into an array that others may share
			if m, ok := V(x.Cap).isInt(); ok && m > k && m <= 64 {
				var ps []*T
				for i := 0; i < int(m); i++ {
					ps = append(ps, e.elem(e.True, z))
				}
				own := e.newSlice(st, e.seq(ps...))
				e.alias[s.args[0].id] = own.args[0]
				e.views = append(e.views, view{own.args[0], s.args[0], 0})
			}
		}
		set(x, s)
	case *ssa.MakeChan:
		set(x, e.newAlloc("chan", nil))
	case *ssa.MapUpdate:
		e.mapUpdate(fr, st, x)
	case *ssa.Next:
		it := V(x.Iter)
		set(x, e.tuple(e.atom(e.app("more", it)), e.app("mapkey", it), e.app("mapval", it)))
	case *ssa.Range:
		set(x, e.app("iter", V(x.X)))
	case *ssa.Slice:
		set(x, e.sliceOp(fr, st, x))
	case *ssa.Store:
		p := V(x.Addr)
		e.checkNil(fr, st, x.Pos(), p, "store through nil pointer")
		e.store(st, p, V(x.Val))
		e.recordStore(fr, st, p, x.Pos())
	case *ssa.TypeAssert:
		set(x, e.typeAssert(fr, st, x))
	case *ssa.Select:
		set(x, e.top("select"))
	case *ssa.Send:
	case *ssa.SliceToArrayPointer:
		set(x, V(x.X))
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, e.top(fmt.Sprintf("%T", in)))
		}
	}
}

func (e *E) record(name string, st *State, pos token.Pos, fn *ssa.Function, args ...*T) {
	if e.quiet > 0 {
		return
	}
	e.events = append(e.events, event{name: name, pc: st.pc, args: args, pos: pos, fn: fn})
}

func (e *E) recordStore(fr *frame, st *State, p *T, pos token.Pos) {
	if e.quiet > 0 {
		return
	}
	for _, l := range e.leaves(p) {
		r, _ := ptrRoot(l.v)
		if r.op == OAlloc && !strings.HasPrefix(r.name, "global:") {
			continue
		}
		e.events = append(e.events, event{name: "store", pc: st.pc, args: []*T{l.v}, pos: pos, fn: fr.fn})
	}
}

func (e *E) noteType(t *T, typ types.Type) {
	if _, ok := e.rtypes[t.id]; !ok {
		e.rtypes[t.id] = typ
	}
}

// runUnder executes f in the part of st where g holds and merges back.
func (e *E) runUnder(st *State, g *T, f func(*State)) {
	g = e.restrict(g, st.pc)
	if g == e.False {
		return
	}
	if g == e.True {
		f(st)
		return
	}
	a := st.with(e.and(st.pc, g))
	b := st.with(e.and(st.pc, e.not(g)))
	if a.pc == e.False {
		return
	}
	f(a)
	m, _ := e.mergeStates(a, nil, b, nil)
	st.pc, st.heap, st.defers = m.pc, m.heap, m.defers
}

func (e *E) restrictNonNil(st *State, p *T) *T {
	if p.op != OIte {
		return p
	}
	q := e.restrict(p, st.pc)
	// drop nil leaves: the dereference already proved or reported them
	var out *T
	for _, l := range e.leaves(q) {
		if l.v.op == ONil {
			continue
		}
		if out == nil {
			out = l.v
		} else {
			out = e.ite(l.g, l.v, out)
		}
	}
	if out == nil {
		return q
	}
	return out
}

func (e *E) extract(v *T, i int) *T {
	switch v.op {
	case OTuple:
		if i < len(v.args) {
			return v.args[i]
		}
	case OIte:
		return e.lift(v, func(x *T) *T { return e.extract(x, i) })
	case OTop:
		return v
	}
	return e.app(fmt.Sprintf("ret.%d", i), v)
}

func (e *E) strLen(v *T) *T {
	return e.lift(v, func(x *T) *T {
		if s, ok := x.isStr(); ok {
			return e.intc(len(s))
		}
		if e.api && x.op == OCat {
			n, r := 0, (*T)(nil)
			for _, p := range x.args {
				if c, ok := p.isStr(); ok {
					n += len(c)
					continue
				}
				l := e.strLen(p)
				if r == nil {
					r = l
				} else {
					r = e.bin("+", r, l)
				}
			}
			if n != 0 {
				r = e.bin("+", r, e.intc(n))
			}
			return r
		}
		return e.app("len", x)
	})
}

// subCat cuts constant text off the ends of a concatenation.
func (e *E) subCat(s, l, h *T) *T {
	if s.op != OCat {
		return nil
	}
	a, ok := l.isInt()
	if !ok || a < 0 {
		return nil
	}
	b, n := e.baseOff(h)
	lb, ln := e.baseOff(e.strLen(s))
	if b != lb || n > ln {
		return nil
	}
	cut := ln - n
	ps := append([]*T{}, s.args...)
	if a > 0 {
		c, ok := ps[0].isStr()
		if !ok || int64(len(c)) < a {
			return nil
		}
		ps[0] = e.str(c[a:])
	}
	if cut > 0 {
		c, ok := ps[len(ps)-1].isStr()
		if !ok || int64(len(c)) < cut {
			return nil
		}
		ps[len(ps)-1] = e.str(c[:int64(len(c))-cut])
	}
	return e.cat(ps...)
}

// baseOff writes a number as a base plus a constant.
func (e *E) baseOff(x *T) (*T, int64) {
	if n, ok := x.isInt(); ok {
		return nil, n
	}
	if x.op == OBin && x.name == "+" && len(x.args) == 2 {
		if n, ok := x.args[1].isInt(); ok {
			b, m := e.baseOff(x.args[0])
			return b, m + n
		}
	}
	return x, 0
}

func (e *E) strIndex(v, i *T) *T {
	return e.lift2(v, i, func(s, k *T) *T {
		if c, ok := s.isStr(); ok {
			if n, ok := k.isInt(); ok && n >= 0 && int(n) < len(c) {
				return e.intc(int(c[n]))
			}
		}
		return e.app("byteat", s, k)
	})
}

func (e *E) seqLenLift(seq *T) *T {
	return e.lift(seq, e.seqLen)
}

func (e *E) convert(x *ssa.Convert, v *T) *T {
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	if isString(from) && isString(to) {
		return v
	}
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		if fb.Kind() == tb.Kind() {
			return v
		}
		return e.lift(v, func(y *T) *T {
			if y.op == OConst {
				if tb.Info()&types.IsInteger != 0 {
					if c := constant.ToInt(y.cv); c.Kind() == constant.Int {
						if e.api {
							return e.wrapInt(x.Type(), e.constant(c, nil))
						}
						return e.constant(c, nil)
					}
				} else if !e.api || tb.Kind() != types.Float32 {
					return y
				}
			}
			if e.api {
				if r := e.foldApp("conv:"+tb.Name(), []*T{y}); r != nil {
					return r
				}
			}
			r := e.app("conv:"+tb.Name(), y)
			if e.api {
				e.noteType(r, x.Type())
			}
			return r
		})
	}
	if isString(from) {
		return e.lift(v, func(y *T) *T { r := e.app("bytes", y); e.noteType(r, x.Type()); return r })
	}
	if isString(to) {
		return e.lift(v, func(y *T) *T {
			if y.op == OApp && y.name == "bytes" {
				return y.args[0]
			}
			return e.app("string", y)
		})
	}
	return v
}

// wrapInt reduces integer constants to the range of their type.
func (e *E) wrapInt(t types.Type, v *T) *T {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	bits, signed := uint(64), b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	return e.lift(v, func(x *T) *T {
		if x.op != OConst || x.cv.Kind() != constant.Int {
			return x
		}
		one := constant.MakeInt64(1)
		mod := constant.Shift(one, token.SHL, bits)
		lo, hi := constant.MakeInt64(0), mod
		if signed {
			hi = constant.Shift(one, token.SHL, bits-1)
			lo = constant.UnaryOp(token.SUB, hi, 0)
		}
		if constant.Compare(x.cv, token.GEQ, lo) && constant.Compare(x.cv, token.LSS, hi) {
			return x
		}
		r := constant.BinaryOp(x.cv, token.REM, mod)
		if constant.Compare(r, token.LSS, lo) {
			r = constant.BinaryOp(r, token.ADD, mod)
		}
		if constant.Compare(r, token.GEQ, hi) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
		return e.constant(r, nil)
	})
}

// convertBytes converts constant text to and from slices.
func (e *E) convertBytes(st *State, x *ssa.Convert, v *T) *T {
	sl, toSlice := x.Type().Underlying().(*types.Slice)
	if s, ok := v.isStr(); ok && toSlice {
		var ps []*T
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			for _, r := range s {
				ps = append(ps, e.elem(e.True, e.intc(int(r))))
			}
		} else {
			for i := 0; i < len(s); i++ {
				ps = append(ps, e.elem(e.True, e.intc(int(s[i]))))
			}
		}
		return e.newSlice(st, e.seq(ps...))
	}
	if fs, ok := x.X.Type().Underlying().(*types.Slice); ok && isString(x.Type()) && v.op == OSlice {
		c := e.contentOf(st, v)
		if !simpleElems(c, e.True) {
			return nil
		}
		var sb strings.Builder
		b, _ := fs.Elem().Underlying().(*types.Basic)
		for _, p := range c.args {
			n, ok := p.args[1].isInt()
			if !ok {
				return nil
			}
			if b != nil && b.Kind() == types.Int32 {
				sb.WriteRune(rune(n))
			} else {
				sb.WriteByte(byte(n))
			}
		}
		return e.str(sb.String())
	}
	if isString(x.Type()) && isInteger(x.X.Type()) {
		if n, ok := v.isInt(); ok {
			return e.str(string(rune(n)))
		}
	}
	return nil
}

func (e *E) binop(fr *frame, st *State, x *ssa.BinOp) *T {
	a, b := e.val(fr, x.X), e.val(fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return e.eqS(st, a, b)
	case token.NEQ:
		return e.not(e.eqS(st, a, b))
	case token.LSS:
		return e.ltT(a, b, t)
	case token.GTR:
		return e.ltT(b, a, t)
	case token.LEQ:
		if isFloat(t) {
			return e.or(e.ltT(a, b, t), e.eq(a, b))
		}
		return e.not(e.ltT(b, a, t))
	case token.GEQ:
		if isFloat(t) {
			return e.or(e.ltT(b, a, t), e.eq(a, b))
		}
		return e.not(e.ltT(a, b, t))
	case token.ADD:
		if isString(t) {
			return e.cat(a, b)
		}
	case token.QUO, token.REM:
		if isInteger(t) {
			z := e.eq(b, e.intc(0))
			if b.op != OConst || z == e.True {
				e.obligation("divzero", x.Pos(), fr, st.pc, z, "integer division by zero")
			}
			return e.bin("i"+x.Op.String(), a, b)
		}
	}
	if e.api && isInteger(t) {
		return e.wrapInt(x.Type(), e.bin(x.Op.String(), a, b))
	}
	if isBool(t) {
		switch x.Op {
		case token.AND, token.LAND:
			return e.and(e.boolVal(a), e.boolVal(b))
		case token.OR, token.LOR:
			return e.or(e.boolVal(a), e.boolVal(b))
		}
	}
	return e.bin(x.Op.String(), a, b)
}

// normNum gives integral numbers one representation.
func normNum(v constant.Value) constant.Value {
	if v.Kind() == constant.Float {
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			return iv
		}
	}
	return v
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *E) bin(op string, a, b *T) *T {
	return e.lift2(a, b, func(x, y *T) *T {
		if x.op == OConst && y.op == OConst && x.cv.Kind() != constant.Bool {
			var tok token.Token
			switch op {
			case "+":
				tok = token.ADD
			case "-":
				tok = token.SUB
			case "*":
				tok = token.MUL
			case "/":
				tok = token.QUO
			case "&":
				tok = token.AND
			case "|":
				tok = token.OR
			case "^":
				tok = token.XOR
			case "&^":
				tok = token.AND_NOT
			case "<<":
				if n, ok := y.isInt(); ok && n < 64 {
					return e.constant(constant.Shift(x.cv, token.SHL, uint(n)), nil)
				}
			case ">>":
				if n, ok := y.isInt(); ok && n >= 0 && n < 64 && x.cv.Kind() == constant.Int {
					return e.constant(constant.Shift(x.cv, token.SHR, uint(n)), nil)
				}
			}
			if op == "i/" || op == "i%" {
				p, ok1 := x.isInt()
				q, ok2 := y.isInt()
				if ok1 && ok2 && q != 0 {
					if op == "i/" {
						return e.intc(int(p / q))
					}
					return e.intc(int(p % q))
				}
			}
			if tok == token.QUO && constant.Sign(y.cv) == 0 {
				if op == "/" && (x.cv.Kind() == constant.Int || x.cv.Kind() == constant.Float) {
					return e.sym([]string{"-Inf", "NaN", "+Inf"}[constant.Sign(x.cv)+1], types.Typ[types.Float64])
				}
				tok = token.ILLEGAL
			}
			if tok != token.ILLEGAL && (x.cv.Kind() == constant.String) == (y.cv.Kind() == constant.String) {
				if tok == token.AND || tok == token.OR || tok == token.XOR || tok == token.AND_NOT {
					if x.cv.Kind() != constant.Int || y.cv.Kind() != constant.Int {
						return e.mk(&T{op: OBin, name: op, args: []*T{x, y}})
					}
				}
				return e.constant(normNum(constant.BinaryOp(x.cv, tok, y.cv)), nil)
			}
		}
		if op == "-" {
			if n, ok := y.isInt(); ok {
				return e.bin("+", x, e.intc(int(-n)))
			}
			if x == y {
				return e.intc(0)
			}
		}
		if op == "+" {
			if n, ok := x.isInt(); ok {
				x, y = y, e.intc(int(n))
			}
			if n, ok := y.isInt(); ok {
				if n == 0 {
					return x
				}
				if x.op == OBin && x.name == "+" {
					if m, ok := x.args[1].isInt(); ok {
						return e.bin("+", x.args[0], e.intc(int(n+m)))
					}
				}
			} else if x.id > y.id && y.op != OConst {
				x, y = y, x
			}
		}
		if op == "*" {
			if x.op == OConst || (x.id > y.id && y.op != OConst) {
				x, y = y, x
			}
			if n, ok := y.isInt(); ok && n == 1 {
				return x
			}
		}
		return e.mk(&T{op: OBin, name: op, args: []*T{x, y}})
	})
}

// ---------------------------------------------------------------- equality

func (e *E) eqS(st *State, a, b *T) *T {
	// comparisons of a slice with nil need the heap-independent nil condition
	return e.eq(a, b)
}

func (e *E) eqAtom(a, b *T) *T {
	if a.op == OConst || a.op == ONil || (b.op != OConst && b.op != ONil && a.id > b.id) {
		a, b = b, a
	}
	return e.atom(e.mk(&T{op: OEq, args: []*T{a, b}}))
}

func (e *E) eq(a, b *T) *T {
	if a.op == OIte || b.op == OIte {
		return e.lift2(a, b, e.eq)
	}
	if isNaNSym(a) || isNaNSym(b) {
		return e.False
	}
	if a == b {
		return e.True
	}
	if a.op == ONil {
		a, b = b, a
	}
	if b.op == ONil {
		switch a.op {
		case ONil:
			return e.True
		case OIface, OAlloc, OClosure, OFieldAddr, OIndexAddr, OConst, OMap, OStruct:
			return e.False
		case OSlice:
			return a.args[1]
		case OApp:
			switch e.prog.nilnessOf(e, a) {
			case 1:
				return e.True
			case 0:
				return e.False
			}
			if a.name == "wrap" || a.name == "errors.New" || strings.HasPrefix(a.name, "antlr:") {
				return e.False
			}
		}
		return e.eqAtom(a, b)
	}
	if e.api {
		inf := func(x *T) bool { return x.op == OSym && (x.name == "+Inf" || x.name == "-Inf") }
		if a != b && (inf(a) && (b.op == OConst || inf(b)) || inf(b) && a.op == OConst) {
			return e.False
		}
		// objects the caller supplies are different from each other and from
		// those the code makes
		own := func(x *T) bool {
			return x.op == OSym && (strings.HasPrefix(x.name, "tracer") || strings.HasPrefix(x.name, "userconn-") || strings.HasPrefix(x.name, "netconn-"))
		}
		if own(a) && (own(b) || b.op == OIface || b.op == OAlloc) || own(b) && (a.op == OIface || a.op == OAlloc) {
			return e.False
		}
	}
	if a.op == OConst && b.op != OConst {
		a, b = b, a
	}
	if a.op == OConst && b.op == OConst {
		if a.cv.Kind() == b.cv.Kind() || (a.cv.Kind() != constant.String && a.cv.Kind() != constant.Bool && b.cv.Kind() != constant.String && b.cv.Kind() != constant.Bool) {
			return e.boolc(constant.Compare(a.cv, token.EQL, b.cv))
		}
		return e.False
	}
	if a.op == OAlloc && b.op == OAlloc {
		return e.False
	}
	if a.op == OIface && b.op == OIface {
		if e.tkey(a.typ) != e.tkey(b.typ) {
			return e.False
		}
		return e.eq(a.args[0], b.args[0])
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		r := e.True
		for i := range a.args {
			r = e.and(r, e.eq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.op == OCat && b.op == OCat {
		// equal ends cancel
		x, y := catParts(a), catParts(b)
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		x, y = x[i:], y[i:]
		j := 0
		for j < len(x) && j < len(y) && x[len(x)-1-j] == y[len(y)-1-j] {
			j++
		}
		if i+j > 0 {
			return e.eq(e.cat(x[:len(x)-j]...), e.cat(y[:len(y)-j]...))
		}
	}
	if b.op == OConst {
		if s, ok := b.isStr(); ok {
			if a.op == OApp {
				if r := e.prog.eqText(e, a, s); r != nil {
					return r
				}
			}
			if s == "" {
				switch {
				case e.neverEmpty(a):
					return e.False
				case a.op == OCat:
					r := e.True
					for _, p := range a.args {
						r = e.and(r, e.eq(p, b))
					}
					return r
				case a.op == OApp && a.name == "join":
					return e.emptyJoin(a)
				case a.op == OApp && a.name == "loopcat":
					return e.or(e.emptyDom(a.args[0]), e.not(e.anyOf(a.args[0], e.not(e.eq(a.args[1], b)))))
				}
			}
			if a.op == OApp && a.name == "strings.ToUpper" {
				if strings.ToUpper(s) != s {
					return e.False
				}
			}
			if a.op == OApp && a.name == "strings.ToLower" {
				if strings.ToLower(s) != s {
					return e.False
				}
				return e.eq(e.app("strings.ToUpper", a.args[0]), e.str(strings.ToUpper(s)))
			}
			if a.op == OCat {
				// constant prefix/suffix mismatch
				if p, ok := a.args[0].isStr(); ok && !strings.HasPrefix(s, p) {
					return e.False
				}
				if p, ok := a.args[len(a.args)-1].isStr(); ok && !strings.HasSuffix(s, p) {
					return e.False
				}
			}
		}
		if n, ok := b.isInt(); ok {
			if a.op == OApp && a.name == "strings.Compare" && n == 0 {
				return e.eq(a.args[0], a.args[1])
			}
			if a.op == OApp && a.name == "len" {
				if n < 0 {
					return e.False
				}
				if int(n) < e.prog.minLen(e, a.args[0]) {
					return e.False
				}
				if n == 0 {
					x := a.args[0]
					if x.op == OSeq {
						return e.emptySeq(x)
					}
					if e.isStringLen(x) {
						return e.eq(x, e.str(""))
					}
				}
			}
			if a.op == OBin && a.name == "+" {
				if m, ok := a.args[1].isInt(); ok {
					return e.eq(a.args[0], e.intc(int(n-m)))
				}
			}
		}
		if b.cv.Kind() == constant.Bool {
			if b == e.True {
				return e.boolVal(a)
			}
			return e.not(e.boolVal(a))
		}
	}
	return e.eqAtom(a, b)
}

func (e *E) isStringLen(x *T) bool {
	switch x.op {
	case OCat:
		return true
	case OApp:
		if x.name == "join" || x.name == "GetText" || strings.HasPrefix(x.name, "str:") || strings.HasPrefix(x.name, "strings.T") || x.name == "loopcat" {
			return true
		}
	}
	if t, ok := e.rtypes[x.id]; ok {
		return isString(t)
	}
	if x.op == OSym && x.typ != nil {
		return isString(x.typ)
	}
	return false
}

func (e *E) emptyJoin(a *T) *T {
	// join is empty iff every element is empty and there is at most one; with a
	// non-empty separator this is: seq empty, or single empty element. Treat a
	// sequence whose elements are never empty precisely.
	seq := a.args[1]
	if seq.op == OSeq {
		never := true
		for _, p := range seq.args {
			switch p.op {
			case OElem:
				if !e.neverEmpty(p.args[1]) {
					never = false
				}
			case OLoop:
				for _, q := range p.args[2].args {
					if q.op != OElem || !e.neverEmpty(q.args[1]) {
						never = false
					}
				}
			default:
				never = false
			}
		}
		if never {
			return e.emptySeq(seq)
		}
	}
	return e.eqAtom(a, e.str(""))
}

func (e *E) ltT(a, b *T, t types.Type) *T {
	if isUnsigned(t) {
		return e.lift2(a, b, func(x, y *T) *T {
			if n, ok := x.isInt(); ok && n == 0 {
				return e.not(e.eq(y, e.intc(0)))
			}
			if n, ok := y.isInt(); ok && n == 0 {
				return e.False
			}
			if n, ok := y.isInt(); ok && n == 1 {
				return e.eq(x, e.intc(0))
			}
			return e.lt(x, y)
		})
	}
	return e.lt(a, b)
}

func (e *E) nonNeg(x *T) bool {
	if x.op == OApp && (x.name == "len" || x.name == "idx" || x.name == "count" || x.name == "countbefore" || x.name == "firstidx") {
		return true
	}
	if n, ok := x.isInt(); ok {
		return n >= 0
	}
	if x.op == OBin && x.name == "+" {
		return e.nonNeg(x.args[0]) && e.nonNeg(x.args[1])
	}
	return false
}

func (e *E) lt(a, b *T) *T {
	if a.op == OIte || b.op == OIte {
		return e.lift2(a, b, e.lt)
	}
	if a == b {
		return e.False
	}
	if a.op == OConst && b.op == OConst && a.cv.Kind() != constant.Bool {
		if (a.cv.Kind() == constant.String) == (b.cv.Kind() == constant.String) {
			return e.boolc(constant.Compare(a.cv, token.LSS, b.cv))
		}
	}
	if e.api {
		// the inputs are finite numbers
		inf := func(x *T, n string) bool { return x.op == OSym && x.name == n }
		if inf(b, "-Inf") || inf(a, "+Inf") {
			return e.False
		}
		if inf(a, "-Inf") || inf(b, "+Inf") {
			return e.True
		}
	}
	if e.api {
		ba, na := e.baseOff(a)
		bb, nb := e.baseOff(b)
		if ba == bb && ba != nil && ba.op == OApp && ba.name == "len" {
			return e.boolc(na < nb)
		}
	}
	if n, ok := a.isInt(); ok {
		if b.op == OBin && b.name == "+" {
			if m, ok := b.args[1].isInt(); ok {
				return e.lt(e.intc(int(n-m)), b.args[0])
			}
		}
		if e.nonNeg(b) {
			if n < 0 {
				return e.True
			}
			if n == 0 {
				return e.not(e.eq(b, e.intc(0)))
			}
		}
		if b.op == OApp && b.name == "len" && e.isStringLen(b.args[0]) && n == 0 {
			return e.not(e.eq(b.args[0], e.str("")))
		}
	}
	if n, ok := b.isInt(); ok {
		if a.op == OBin && a.name == "+" {
			if m, ok := a.args[1].isInt(); ok {
				return e.lt(a.args[0], e.intc(int(n-m)))
			}
		}
		if e.nonNeg(a) {
			if n <= 0 {
				return e.False
			}
			if n == 1 {
				return e.eq(a, e.intc(0))
			}
		}
	}
	// idx(d) < len(d)
	if a.op == OApp && a.name == "idx" && b == e.lenOf(a.args[0]) {
		return e.True
	}
	return e.atom(e.mk(&T{op: OLt, args: []*T{a, b}}))
}

// ---------------------------------------------------------------- types

func (e *E) typeIs(x *T, t types.Type) *T {
	if x.op == OIte {
		return e.lift(x, func(y *T) *T { return e.typeIs(y, t) })
	}
	it, isIface := t.Underlying().(*types.Interface)
	switch x.op {
	case ONil:
		return e.False
	case OIface:
		if isIface {
			return e.boolc(types.Implements(x.typ, it))
		}
		return e.boolc(types.Identical(x.typ, t))
	}
	if r := e.prog.grammarTypeIs(e, x, t); r != nil {
		return r
	}
	if x.op == OApp && (x.name == "wrap" || x.name == "errors.New") {
		if isIface {
			return e.boolc(types.Implements(errorType, it))
		}
		return e.False
	}
	return e.atom(e.mk(&T{op: OTypeIs, args: []*T{x}, typ: t}))
}

func (e *E) typeAssert(fr *frame, st *State, x *ssa.TypeAssert) *T {
	v := e.val(fr, x.X)
	_, isIface := x.AssertedType.Underlying().(*types.Interface)
	ok := e.typeIs(v, x.AssertedType)
	val := e.lift(v, func(y *T) *T {
		if isIface {
			return y
		}
		switch y.op {
		case OIface:
			if types.Identical(y.typ, x.AssertedType) {
				return y.args[0]
			}
			return e.zero(x.AssertedType)
		case ONil:
			return e.zero(x.AssertedType)
		}
		if e.prog.isGrammarTerm(y) {
			return y
		}
		r := e.app("as:"+shortType(x.AssertedType), y)
		e.noteType(r, x.AssertedType)
		return r
	})
	if x.CommaOk {
		return e.tuple(e.ite(ok, val, e.zero(x.AssertedType)), ok)
	}
	e.obligation("typeassert", x.Pos(), fr, st.pc, e.definite(st, e.not(ok)), "type assertion may fail")
	return val
}

// definite keeps only the part of a failure condition that is certain: atoms
// about opaque inputs are given the benefit of the doubt.
func (e *E) definite(st *State, bad *T) *T {
	r := e.restrict(bad, st.pc)
	return e.lift(r, func(x *T) *T { return x })
}

// ---------------------------------------------------------------- checks

// checkNil records the obligation that p is not nil here.
func (e *E) checkNil(fr *frame, st *State, pos token.Pos, p *T, what string) {
	if p.op == OAlloc || p.op == OFieldAddr || p.op == OIndexAddr {
		return
	}
	bad := e.False
	for _, l := range e.leaves(p) {
		switch l.v.op {
		case ONil:
			bad = e.or(bad, l.g)
		case OApp:
			n := e.eq(l.v, e.Nil)
			if e.prog.isGrammarTerm(l.v) {
				bad = e.or(bad, e.and(l.g, n))
			} else if e.restrict(n, e.and(st.pc, l.g)) == e.True {
				bad = e.or(bad, l.g)
			}
		case OSym:
			n := e.eq(l.v, e.Nil)
			if e.restrict(n, e.and(st.pc, l.g)) == e.True {
				bad = e.or(bad, l.g)
			}
		}
	}
	e.obligation("nil", pos, fr, st.pc, bad, what+": "+clip(p))
	if bad != e.False {
		// continue on the surviving part
		npc := e.and(st.pc, e.not(bad))
		if npc != e.False {
			st.pc = npc
		} else {
			st.pc = e.False
		}
	}
}

var shortener = strings.NewReplacer(
	"elem(g:AllSql_stmt(elem(g:AllSql_stmt_list(tree:parse(antlr:parser(<*antlr.CommonTokenStream>antlr:tokens(<*antlr.SQLiteLexer>antlr:lexer(<*antlr.InputStream>antlr:input($query)), 0)))))))", "STMT",
	"antlr:parser(<*antlr.CommonTokenStream>antlr:tokens(<*antlr.SQLiteLexer>antlr:lexer(<*antlr.InputStream>antlr:input($query)), 0))", "PARSER",
	"g:", "")

func shorten(s string) string { return shortener.Replace(s) }

func clip(t *T) string {
	if t.size > 4000 {
		return "<large term>"
	}
	s := t.String()
	s = shorten(s)
	if len(s) > clipLen {
		return s[:clipLen] + "…"
	}
	return s
}

// softIndex notes the lists an index depends on that the general run cannot
// decide: the rule is repeated with these lists instantiated.
func (e *E) softIndex(ts ...*T) {
	seen := map[int]bool{}
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if k := e.listKey(x); k != "" {
			e.soft[k] = true
		}
		if x.op == OSym && strings.HasPrefix(x.name, "mu#") {
			for id, n := range e.active {
				if k := e.listKey(e.byID(id)); n > 0 && k != "" {
					e.soft[k] = true
				}
			}
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

func (e *E) checkBounds(fr *frame, st *State, pos token.Pos, n, i *T) {
	bad := e.False
	ln := e.lift2(n, i, func(n, i *T) *T {
		// certain or constant-decidable failures only
		if k, ok := i.isInt(); ok {
			if k < 0 {
				return e.True
			}
			in := e.lt(i, n)
			if in == e.True || in == e.False {
				return e.not(in)
			}
			if n.op == OApp && n.name == "len" {
				if e.prog.minLen(e, n.args[0]) > int(k) {
					return e.False
				}
				return e.not(in)
			}
			return e.not(in)
		}
		if e.api {
			return e.or(e.not(e.lt(i, n)), e.lt(i, e.intc(0)))
		}
		if e.unrelatedIndex(st, n, i) {
			return e.not(e.lt(i, n))
		}
		if i.op != OApp || i.name != "idx" && i.name != "pos" {
			e.softIndex(i)
		}
		return e.False
	})
	bad = ln
	if e.api {
	} else if x := e.lastIndex(st, n, i); x != e.False {
		bad = e.or(bad, x)
	}
	e.obligation("bounds", pos, fr, st.pc, bad, fmt.Sprintf("index %s out of range of length %s", clip(i), clip(n)))
	if r := e.and(st.pc, e.not(bad)); r != e.False {
		st.pc = r
	}
}

// unrelatedIndex reports an index that counts something other than the list it
// indexes (whose length the grammar leaves free) and that no branch compared
// with anything.
func (e *E) unrelatedIndex(st *State, n, i *T) bool {
	if n.op != OApp || n.name != "len" || !e.prog.isGrammarTerm(n.args[0]) {
		return false
	}
	if len(i.vars) == 0 || e.active[n.args[0].id] > 0 {
		return false
	}
	for id, k := range e.active {
		if k > 0 && e.lenOf(e.byID(id)) == n {
			return false
		}
	}
	base := i
	for base.op == OBin && (base.name == "+" || base.name == "-") {
		base = base.args[0]
	}
	if !(base.op == OSym && strings.HasPrefix(base.name, "mu#") || base.op == OApp && (base.name == "idx" || base.name == "countbefore")) {
		return false
	}
	seen := map[int]bool{}
	var rec func(x *T) bool
	rec = func(x *T) bool {
		if x.op != OIte || seen[x.id] {
			return false
		}
		seen[x.id] = true
		return mentions(x.args[0], base) || rec(x.args[1]) || rec(x.args[2])
	}
	return !rec(st.pc)
}

// lastIndex decides an index that is linear in the position of a loop whose
// number of iterations is known: on its last (or first) iteration the index is
// past the end (or before the start) of the list, and nothing on the path
// compared the position with anything.
func (e *E) lastIndex(st *State, n, i *T) *T {
	var iv *T
	for _, l := range e.leaves(i) {
		co, _ := linear(l.v)
		for id, c := range co {
			x := e.byID(id)
			if c == 1 && x.op == OApp && x.name == "idx" && e.active[x.args[0].id] > 0 {
				// the innermost loop over the largest domain term
				if iv == nil || mentions(x, iv) {
					iv = x
				}
			}
		}
	}
	if iv == nil || comparesIdx(st.pc, iv) {
		return e.False
	}
	d := iv.args[0]
	if d.op == OApp && (d.name == "entries" || strings.HasPrefix(d.name, "iter@")) {
		return e.False
	}
	bad := e.False
	N := e.lenOf(d)
	try := func(at *T, past bool) {
		ix := e.subst(i, map[int]*T{iv.id: at})
		r := e.lift2(e.restrict(n, st.pc), e.restrict(ix, st.pc), func(n, ix *T) *T {
			if n.op == OTop || ix.op == OTop {
				return e.False
			}
			a, ka := linear(ix)
			if past {
				b, kb := linear(n)
				for id, c := range b {
					a[id] -= c
				}
				ka -= kb
			}
			for id, c := range a {
				if c != 0 {
					if past || c > 0 || !nonNegTerm(e.byID(id)) {
						return e.False
					}
				}
			}
			if past && ka >= 0 || !past && ka < 0 {
				return e.True
			}
			return e.False
		})
		bad = e.or(bad, r)
	}
	try(e.bin("-", N, e.intc(1)), true)
	try(e.intc(0), false)
	return bad
}

func nonNegTerm(t *T) bool { return t.op == OApp && (t.name == "len" || t.name == "idx") }

// linear splits an integer term into coefficients of its non-linear parts and
// a constant.
func linear(t *T) (map[int]int, int) {
	co, k := map[int]int{}, 0
	var rec func(t *T, s int)
	rec = func(t *T, s int) {
		if n, ok := t.isInt(); ok {
			k += s * int(n)
			return
		}
		if t.op == OBin && len(t.args) == 2 {
			switch t.name {
			case "+":
				rec(t.args[0], s)
				rec(t.args[1], s)
				return
			case "-":
				rec(t.args[0], s)
				rec(t.args[1], -s)
				return
			}
		}
		co[t.id] += s
	}
	rec(t, 1)
	return co, k
}

// comparesIdx reports a decision of pc that constrains the position iv (other
// than by the element found there), or loop-carried state.
func comparesIdx(pc, iv *T) bool {
	var hit func(t *T) bool
	hit = func(t *T) bool {
		if t == iv {
			return true
		}
		if t.op == OSym && strings.HasPrefix(t.name, "mu#") {
			return true
		}
		if t.op == OApp && (t.name == "index" || t.name == "elem") && !mentionsMu(t) {
			return false
		}
		if t.op == OApp && (t.name == "range" || t.name == "idx" || t.name == "countbefore") {
			return t != iv && t.name == "countbefore"
		}
		for _, a := range t.args {
			if hit(a) {
				return true
			}
		}
		return false
	}
	seen := map[int]bool{}
	var rec func(x *T) bool
	rec = func(x *T) bool {
		if x.op != OIte || seen[x.id] {
			return false
		}
		seen[x.id] = true
		return hit(x.args[0]) || rec(x.args[1]) || rec(x.args[2])
	}
	return rec(pc)
}

func mentionsMu(t *T) bool {
	if t.op == OSym && strings.HasPrefix(t.name, "mu#") {
		return true
	}
	for _, a := range t.args {
		if mentionsMu(a) {
			return true
		}
	}
	return false
}

func mentions(t, x *T) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- slices, maps

func (e *E) sliceOp(fr *frame, st *State, x *ssa.Slice) *T {
	v := e.val(fr, x.X)
	var lo, hi *T
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if isString(x.X.Type()) {
		if lo == nil {
			lo = e.intc(0)
		}
		if hi == nil {
			hi = e.strLen(v)
		}
		e.checkSlice(fr, st, x.Pos(), e.strLen(v), lo, hi)
		return e.lift(v, func(s *T) *T {
			if c, ok := s.isStr(); ok {
				a, ok1 := lo.isInt()
				b, ok2 := hi.isInt()
				if ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(c) {
					return e.str(c[a:b])
				}
			}
			if e.api {
				return e.lift2(lo, hi, func(l, h *T) *T {
					a, ok1 := l.isInt()
					b, ok2 := h.isInt()
					if c, ok := s.isStr(); ok && ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(c) {
						return e.str(c[a:b])
					}
					if c := e.subCat(s, l, h); c != nil {
						return c
					}
					r := e.app("substr", s, l, h)
					e.noteType(r, x.Type())
					return r
				})
			}
			r := e.app("substr", s, lo, hi)
			e.noteType(r, x.Type())
			return r
		})
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		_ = p
		if lo == nil && hi == nil && v.op == OAlloc {
			return e.mk(&T{op: OSlice, args: []*T{v, e.False}})
		}
		return e.newSlice(st, e.subSeq(e.load(st, v), lo, hi))
	}
	if lo == nil && hi == nil {
		return v
	}
	if e.api {
		l, h := lo, hi
		if l == nil {
			l = e.intc(0)
		}
		n := e.seqLenLift(e.contentOf(st, v))
		if h == nil {
			h = n
		}
		e.checkSlice(fr, st, x.Pos(), n, l, h)
	}
	r := e.newSlice(st, e.subSeq(e.contentOf(st, v), lo, hi))
	if v.op == OSlice && hi != nil && x.Max == nil && (lo == nil || lo == e.intc(0)) {
		// a truncated slice still owns the tail of the array
		e.alias[r.args[0].id] = e.aliasRoot(v.args[0])
	}
	if e.api && v.op == OSlice && r.op == OSlice {
		l := int64(0)
		ok := true
		if lo != nil {
			l, ok = lo.isInt()
		}
		if ok && simpleElems(e.contentOf(st, v), e.True) {
			e.views = append(e.views, view{v.args[0], r.args[0], l})
		}
	}
	return r
}

// checkSlice records the obligation 0 <= lo <= hi <= n.
func (e *E) checkSlice(fr *frame, st *State, pos token.Pos, n, lo, hi *T) {
	if !e.api {
		return
	}
	bad := e.or(e.lt(lo, e.intc(0)), e.or(e.lt(hi, lo), e.lt(n, hi)))
	e.obligation("slice", pos, fr, st.pc, bad, fmt.Sprintf("slice bounds %s:%s out of range of length %s", clip(lo), clip(hi), clip(n)))
	if r := e.and(st.pc, e.not(bad)); r != e.False {
		st.pc = r
	}
}

func (e *E) aliasRoot(a *T) *T {
	if o, ok := e.alias[a.id]; ok {
		return o
	}
	return a
}

// storeElem sets an element of an array, for every slice that shares it.
func (e *E) storeElem(st *State, root *T, i int, v *T) {
	e.store(st, e.mk(&T{op: OIndexAddr, args: []*T{root, e.intc(i)}}), v)
}

// blurBases makes the arrays that a slice is a part of unknown: it is
// overwritten in a way that is not followed.
func (e *E) blurBases(st *State, root *T) {
	seen := map[int]bool{root.id: true}
	work := []*T{root}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		for _, vw := range e.views {
			for _, o := range [][2]*T{{vw.view, vw.base}, {vw.base, vw.view}} {
				if o[0] != w || seen[o[1].id] {
					continue
				}
				seen[o[1].id] = true
				if c, ok := st.heap[o[1].id]; ok {
					st.heap[o[1].id] = e.seq(e.spread(e.True, e.app("overwritten", c)))
				}
				work = append(work, o[1])
			}
		}
	}
}

// appendInPlace: appending to a truncated slice overwrites the array it shares.
func (e *E) appendInPlace(st *State, v, base, ext, res *T) {
	if v.op != OSlice {
		return
	}
	own, ok := e.alias[v.args[0].id]
	if !ok {
		return
	}
	cur, ok := st.heap[own.id]
	if !ok || cur.op != OSeq {
		return
	}
	if simpleElems(cur, e.True) && simpleElems(base, e.True) && simpleElems(ext, e.True) {
		n := len(base.args)
		if n+len(ext.args) > len(cur.args) {
			return // moves to a new array (the capacity equals the length)
		}
		if e.api {
			for i, x := range ext.args {
				e.storeElem(st, own, n+i, x.args[1])
			}
			if res.op == OSlice {
				e.views = append(e.views, view{own, res.args[0], 0})
				e.alias[res.args[0].id] = own
			}
		} else {
			ps := append([]*T{}, cur.args...)
			copy(ps[n:], ext.args)
			st.heap[own.id] = e.seq(ps...)
		}
	} else {
		st.heap[own.id] = e.seq(e.spread(e.True, e.app("overwritten", cur, base, ext)))
		e.noteFoldsIn(base)
		e.noteFoldsIn(ext)
		e.noteFoldsIn(cur)
		for id := range e.active {
			if e.active[id] > 0 {
				e.noteFoldsIn(e.byID(id))
			}
		}
	}
	if res.op == OSlice {
		e.alias[res.args[0].id] = own
	}
}

func (e *E) subSeq(seq, lo, hi *T) *T {
	if lo == nil {
		lo = e.intc(0)
	}
	if seq.op == OSeq {
		a, ok1 := lo.isInt()
		b := int64(len(seq.args))
		ok2 := true
		if hi != nil {
			b, ok2 = hi.isInt()
		}
		if ok1 && ok2 && simpleElems(seq, e.True) && a <= b && b <= int64(len(seq.args)) {
			return e.seq(seq.args[a:b]...)
		}
		if ok1 && hi == nil {
			all := true
			for i := 0; i < int(a) && i < len(seq.args); i++ {
				if seq.args[i].op != OElem || seq.args[i].args[0] != e.True {
					all = false
				}
			}
			if all && int(a) <= len(seq.args) {
				return e.seq(seq.args[a:]...)
			}
		}
	}
	h := hi
	if h == nil {
		h = e.seqLenLift(seq)
	}
	if lo == e.intc(0) && hi == nil {
		return seq
	}
	return e.seq(e.spread(e.True, e.app("sub", seq, lo, h)))
}

func (e *E) mapContent(st *State, m *T) *T {
	if m.op == OAlloc {
		if c, ok := st.heap[m.id]; ok {
			return c
		}
	}
	if c, ok := st.heap[m.id]; ok {
		return c
	}
	if m.op == ONil {
		return e.mk(&T{op: OMap})
	}
	return e.mk(&T{op: OMap, name: "base", args: []*T{m}})
}

func (e *E) mapLookup(st *State, m, k *T, et types.Type, commaOk bool) *T {
	f := func(mm *T) *T {
		c := e.mapContent(st, mm)
		return e.lift(c, func(c *T) *T { return e.mapGet(c, k, et) })
	}
	r := e.lift(m, f)
	if commaOk {
		return r
	}
	return e.extract(r, 0)
}

// mapGet returns (value, present).
func (e *E) mapGet(c, k *T, et types.Type) *T {
	if c.op != OMap {
		v := e.app("mapget", c, k)
		e.noteType(v, et)
		return e.tuple(v, e.atom(e.app("maphas", c, k)))
	}
	ps := c.args
	var res *T
	if c.name == "base" {
		b := ps[0]
		ps = ps[1:]
		v := e.app("mapget", b, k)
		e.noteType(v, et)
		res = e.tuple(v, e.atom(e.app("maphas", b, k)))
	} else {
		res = e.tuple(e.zero(et), e.False)
	}
	for i := 0; i+1 < len(ps); i += 2 {
		key, v := ps[i], ps[i+1]
		c := e.eq(key, k)
		nv := e.tuple(v, e.True)
		if v.op == OSym && v.name == "deleted" {
			nv = e.tuple(e.zero(et), e.False)
		}
		res = e.tuple(e.ite(c, nv.args[0], res.args[0]), e.ite(c, nv.args[1], res.args[1]))
	}
	return res
}

func (e *E) hasKey(args []*T, k *T) bool {
	for i := 0; i+1 < len(args); i += 2 {
		if e.eq(args[i], k) != e.False {
			return true
		}
	}
	return false
}

func (e *E) mapUpdate(fr *frame, st *State, x *ssa.MapUpdate) {
	m, k, v := e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value)
	e.checkNil(fr, st, x.Pos(), m, "assignment to entry in nil map")
	e.mapStore(st, m, k, v)
	e.recordStore(fr, st, m, x.Pos())
}

func (e *E) mapStore(st *State, m, k, v *T) {
	for _, l := range e.leaves(m) {
		if l.v.op == ONil || l.v.op == OTop {
			continue
		}
		g := e.restrict(l.g, st.pc)
		old := e.mapContent(st, l.v)
		nc := e.lift(old, func(c *T) *T {
			if c.op != OMap {
				c = e.mk(&T{op: OMap, name: "base", args: []*T{c}})
			}
			// an identical key is replaced in place
			start := 0
			if c.name == "base" {
				start = 1
			}
			args := append([]*T{}, c.args...)
			for i := len(args) - 2; i >= start; i -= 2 {
				if args[i] == k {
					if v.op == OSym && v.name == "deleted" && c.name != "base" {
						args = append(args[:i], args[i+2:]...)
						if !e.hasKey(args, k) {
							return e.mk(&T{op: OMap, name: c.name, args: args})
						}
						break
					}
					args[i+1] = v
					return e.mk(&T{op: OMap, name: c.name, args: args})
				}
				if e.eq(args[i], k) != e.False {
					break
				}
				if i == start && v.op == OSym && v.name == "deleted" && c.name != "base" {
					return c
				}
			}
			if len(args) == 0 && v.op == OSym && v.name == "deleted" {
				return c
			}
			return e.mk(&T{op: OMap, name: c.name, args: append(args, k, v)})
		})
		if g != e.True {
			nc = e.ite(g, nc, old)
		}
		st.heap[l.v.id] = nc
	}
}

// boundIdx reports that i is the current iteration index over seq.
func (e *E) boundIdx(seq, i *T) bool {
	for _, b := range e.idxBind[i.id] {
		if b.seq == seq {
			return true
		}
	}
	return false
}

// witness renders one shortest satisfying assignment of a decision DAG.
func (e *E) witness(t *T) string {
	type res struct {
		n   int
		lit []string
	}
	memo := map[int]*res{}
	var rec func(x *T) *res
	rec = func(x *T) *res {
		if x == e.False {
			return nil
		}
		if x.op != OIte {
			return &res{}
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		h, l := rec(x.args[1]), rec(x.args[2])
		var r *res
		if h != nil && (l == nil || h.n <= l.n) {
			r = &res{h.n + 1, append([]string{clip(x.args[0])}, h.lit...)}
		} else if l != nil {
			r = &res{l.n + 1, append([]string{"not " + clip(x.args[0])}, l.lit...)}
		}
		memo[x.id] = r
		return r
	}
	r := rec(t)
	if r == nil {
		return "unreachable"
	}
	return strings.Join(r.lit, " & ")
}

var clipLen = func() int {
	if os.Getenv("VERIF_DEBUG") != "" {
		return 6000
	}
	return 240
}()
