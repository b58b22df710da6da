package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

var errorType = types.Universe.Lookup("error").Type()

func registerModels(e *E) {
	reg := func(name string, m model) { e.models[name] = m }
	// ---------------------------------------------------------- strings
	reg("strings.Join", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.join(c.args[1], e.freezeStrings(st, c.args[0])), true
	})
	reg("strings.EqualFold", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.lift2(c.args[0], c.args[1], func(a, b *T) *T {
			x, ok1 := a.isStr()
			y, ok2 := b.isStr()
			if ok1 && ok2 {
				return e.boolc(strings.EqualFold(x, y))
			}
			return e.eq(e.upper(a), e.upper(b))
		}), true
	})
	reg("strings.ToUpper", func(e *E, st *State, c *callCtx) (*T, bool) { return e.upper(c.args[0]), true })
	reg("strings.Compare", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.lift2(c.args[0], c.args[1], func(a, b *T) *T {
			x, ok1 := a.isStr()
			y, ok2 := b.isStr()
			if ok1 && ok2 {
				return e.intc(strings.Compare(x, y))
			}
			return e.app("strings.Compare", a, b)
		}), true
	})
	reg("strings.ReplaceAll", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.replaceAll(c.args[0], c.args[1], c.args[2]), true
	})
	reg("strings.Replace", func(e *E, st *State, c *callCtx) (*T, bool) {
		if n, ok := c.args[3].isInt(); ok && n < 0 {
			return e.replaceAll(c.args[0], c.args[1], c.args[2]), true
		}
		return nil, false
	})
	// ---------------------------------------------------------- builders
	for _, recv := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		wr := func(f func(e *E, v *T) *T) model {
			return func(e *E, st *State, c *callCtx) (*T, bool) {
				for _, l := range e.leaves(c.args[0]) {
					cell := e.app("builder", l.v)
					old := e.load(st, cell)
					nv := e.cat(old, f(e, c.args[1]))
					g := e.restrict(l.g, st.pc)
					if g != e.True {
						nv = e.mergeCat(g, nv, old)
					}
					st.heap[cell.id] = nv
				}
				if c.result.Len() == 2 {
					return e.tuple(e.intc(0), e.Nil), true
				}
				if c.result.Len() == 1 {
					return e.Nil, true
				}
				return e.tuple(), true
			}
		}
		id := func(e *E, v *T) *T { return v }
		ch := func(e *E, v *T) *T {
			if n, ok := v.isInt(); ok {
				return e.str(string(rune(n)))
			}
			return e.app("string", v)
		}
		reg(recv+".WriteString", wr(id))
		reg(recv+".WriteByte", wr(ch))
		reg(recv+".WriteRune", wr(ch))
		reg(recv+".Write", wr(func(e *E, v *T) *T {
			if v.op == OApp && v.name == "bytes" {
				return v.args[0]
			}
			return e.app("string", v)
		}))
		reg(recv+".String", func(e *E, st *State, c *callCtx) (*T, bool) {
			return e.lift(c.args[0], func(p *T) *T { return e.load(st, e.app("builder", p)) }), true
		})
		reg(recv+".Len", func(e *E, st *State, c *callCtx) (*T, bool) {
			return e.lift(c.args[0], func(p *T) *T { return e.strLen(e.load(st, e.app("builder", p))) }), true
		})
		reg(recv+".Grow", func(e *E, st *State, c *callCtx) (*T, bool) { return e.tuple(), true })
		reg(recv+".Reset", func(e *E, st *State, c *callCtx) (*T, bool) {
			st.heap[e.app("builder", c.args[0]).id] = e.str("")
			return e.tuple(), true
		})
	}
	// ---------------------------------------------------------- fmt
	reg("fmt.Sprintf", func(e *E, st *State, c *callCtx) (*T, bool) {
		s, _ := e.format(st, c.args[0], e.contentOf(st, c.args[1]))
		return s, true
	})
	reg("fmt.Sprint", func(e *E, st *State, c *callCtx) (*T, bool) {
		seq := e.contentOf(st, c.args[0])
		if simpleElems(seq, e.True) && len(seq.args) == 1 {
			return e.fmtVerb(st, "%v", seq.args[0].args[1]), true
		}
		return nil, false
	})
	reg("fmt.Fprintf", func(e *E, st *State, c *callCtx) (*T, bool) {
		s, _ := e.format(st, c.args[1], e.contentOf(st, c.args[2]))
		e.fprint(st, c.args[0], s)
		return e.tuple(e.intc(0), e.Nil), true
	})
	reg("fmt.Fprint", func(e *E, st *State, c *callCtx) (*T, bool) {
		seq := e.contentOf(st, c.args[1])
		if simpleElems(seq, e.True) {
			var ps []*T
			for _, p := range seq.args {
				ps = append(ps, e.fmtVerb(st, "%v", p.args[1]))
			}
			e.fprint(st, c.args[0], e.cat(ps...))
		}
		return e.tuple(e.intc(0), e.Nil), true
	})
	reg("fmt.Errorf", func(e *E, st *State, c *callCtx) (*T, bool) {
		s, ws := e.format(st, c.args[0], e.contentOf(st, c.args[1]))
		return e.wrapErr(s, ws...), true
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(e *E, st *State, c *callCtx) (*T, bool) { return e.tuple(e.intc(0), e.Nil), true })
	}
	// ---------------------------------------------------------- strconv
	reg("strconv.Itoa", func(e *E, st *State, c *callCtx) (*T, bool) { return e.itoa(c.args[0]), true })
	reg("strconv.FormatInt", func(e *E, st *State, c *callCtx) (*T, bool) {
		if b, ok := c.args[1].isInt(); ok && b == 10 {
			return e.itoa(e.stripConv(c.args[0])), true
		}
		return nil, false
	})
	// ---------------------------------------------------------- errors
	reg("errors.New", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.appT(errorType, "errors.New", c.args[0], e.str(e.prog.where(c.pos))), true
	})
	reg("errors.Is", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.lift2(c.args[0], c.args[1], e.errorsIs), true
	})
	reg("errors.Join", func(e *E, st *State, c *callCtx) (*T, bool) {
		seq := e.contentOf(st, c.args[0])
		if simpleElems(seq, e.True) {
			allNil := e.True
			var ws []*T
			for _, p := range seq.args {
				allNil = e.and(allNil, e.eq(p.args[1], e.Nil))
				ws = append(ws, p.args[1])
			}
			return e.ite(allNil, e.Nil, e.wrapErr(e.str("joined"), ws...)), true
		}
		return nil, false
	})
	reg("invoke:Error", func(e *E, st *State, c *callCtx) (*T, bool) {
		r := c.args[0]
		if r.op == OApp && (r.name == "wrap" || r.name == "errors.New") {
			return r.args[0], true
		}
		return nil, false
	})
	// ---------------------------------------------------------- slices, sort
	reg("slices.Contains", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.containsCond(e.contentOf(st, c.args[0]), c.args[1]), true
	})
	reg("slices.Clone", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.lift(c.args[0], func(x *T) *T {
			if x.op == ONil {
				return x
			}
			return e.newSlice(st, e.contentOf(st, x))
		}), true
	})
	reg("slices.Concat", func(e *E, st *State, c *callCtx) (*T, bool) {
		seq := e.contentOf(st, c.args[0])
		if !simpleElems(seq, e.True) {
			return nil, false
		}
		var ps []*T
		for _, p := range seq.args {
			ps = append(ps, e.contentOf(st, p.args[1]).args...)
		}
		return e.newSlice(st, e.seq(ps...)), true
	})
	reg("slices.Delete", func(e *E, st *State, c *callCtx) (*T, bool) {
		s := e.contentOf(st, c.args[0])
		a := e.subSeq(s, e.intc(0), c.args[1])
		b := e.subSeq(s, c.args[2], nil)
		r := e.newSlice(st, e.seq(append(append([]*T{}, a.args...), b.args...)...))
		if v := c.args[0]; e.api && v.op == OSlice {
			// the elements move forward in place, and the places left are cleared
			lo, ok1 := c.args[1].isInt()
			hi, ok2 := c.args[2].isInt()
			if ok1 && ok2 && lo <= hi && s.op == OSeq && simpleElems(s, e.True) && int(hi) <= len(s.args) {
				z := e.Nil
				if c.result != nil && c.result.Len() == 1 {
					if sl, ok := c.result.At(0).Type().Underlying().(*types.Slice); ok {
						z = e.zero(sl.Elem())
					}
				}
				if lo < hi {
					for i := int(lo); i < len(s.args); i++ {
						n := z
						if j := i + int(hi-lo); j < len(s.args) {
							n = s.args[j].args[1]
						}
						e.storeElem(st, v.args[0], i, n)
					}
				}
				e.alias[r.args[0].id] = e.aliasRoot(v.args[0])
				e.views = append(e.views, view{v.args[0], r.args[0], 0})
			} else {
				e.blurBases(st, v.args[0])
				st.heap[v.args[0].id] = e.seq(e.spread(e.True, e.app("overwritten", s)))
			}
		}
		return r, true
	})
	srt := func(e *E, st *State, c *callCtx) (*T, bool) {
		v := c.args[0]
		if v.op == OIface {
			v = v.args[0]
		}
		for _, l := range e.leaves(v) {
			if l.v.op != OSlice {
				continue
			}
			old := e.contentOf(st, l.v)
			args := []*T{old}
			for _, a := range c.args[1:] {
				if a.op == OClosure {
					args = append(args, e.mk(&T{op: OClosure, fn: a.fn}))
				}
			}
			nc := e.seq(e.spread(e.True, e.app("sorted", args...)))
			if len(old.args) <= 1 && simpleElems(old, e.True) {
				nc = old
			}
			if l.g != e.True {
				nc = e.mergeSeq(l.g, nc, old)
			}
			st.heap[l.v.args[0].id] = nc
		}
		return e.tuple(), true
	}
	for _, n := range []string{"sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc"} {
		reg(n, srt)
	}
	reg("maps.Copy", func(e *E, st *State, c *callCtx) (*T, bool) {
		src := e.mapContent(st, c.args[1])
		if src.op == OMap && src.name == "" {
			for i := 0; i+1 < len(src.args); i += 2 {
				e.mapStore(st, c.args[0], src.args[i], src.args[i+1])
			}
			return e.tuple(), true
		}
		for _, l := range e.leaves(c.args[0]) {
			if l.v.op == OAlloc {
				st.heap[l.v.id] = e.mk(&T{op: OMap, name: "base", args: []*T{e.app("mapcopy", e.mapContent(st, l.v), src)}})
			}
		}
		return e.tuple(), true
	})
	// ---------------------------------------------------------- sync, time
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		for _, m := range []string{"Lock", "Unlock", "RLock", "RUnlock", "TryLock"} {
			nm := m
			reg(t+"."+m, func(e *E, st *State, c *callCtx) (*T, bool) {
				e.record("lock:"+nm, st, c.pos, nil, c.args[0])
				return e.tuple(), true
			})
		}
	}
	reg("(*sync.Once).Do", func(e *E, st *State, c *callCtx) (*T, bool) {
		if f := c.args[1]; f.op == OClosure && f.fn.Blocks != nil {
			e.callFunc(st, f.fn, nil, f.args, c.pos)
		}
		return e.tuple(), true
	})
	// ---------------------------------------------------------- ANTLR
	ap := "github.com/antlr4-go/antlr/v4."
	ctor := func(tag string) model {
		return func(e *E, st *State, c *callCtx) (*T, bool) {
			r := e.app("antlr:"+tag, c.args...)
			e.noteType(r, c.result.At(0).Type())
			return r, true
		}
	}
	reg(ap+"NewInputStream", ctor("input"))
	tokens := ctor("tokens")
	reg(ap+"NewCommonTokenStream", func(e *E, st *State, c *callCtx) (*T, bool) {
		e.record("antlr:tokens", st, c.pos, nil, c.args...)
		return tokens(e, st, c)
	})
	reg(antlrPkg+".NewSQLiteLexer", ctor("lexer"))
	reg(antlrPkg+".NewSQLiteParser", ctor("parser"))
	reg(antlrPkg+".NewSQLiteParserInput", ctor("parser"))
	reg("("+"*github.com/antlr4-go/antlr/v4.BaseRecognizer).AddErrorListener", antlrAddListener)
	reg("("+"*github.com/antlr4-go/antlr/v4.BaseRecognizer).RemoveErrorListeners", func(e *E, st *State, c *callCtx) (*T, bool) {
		root := e.sym("antlr:listeners", nil)
		cur, ok := st.heap[root.id]
		if !ok {
			return e.tuple(), true
		}
		p := findApp(c.args[0], "antlr:parser")
		var keep []*T
		for _, x := range cur.args {
			if x.op == OElem && x.args[1].op == OTuple && x.args[1].args[0] == p {
				continue
			}
			keep = append(keep, x)
		}
		st.heap[root.id] = e.seq(keep...)
		return e.tuple(), true
	})
	reg("("+"*"+antlrPkg+".SQLiteParser).Parse", antlrEntry)
}

func antlrAddListener(e *E, st *State, c *callCtx) (*T, bool) {
	p := findApp(c.args[0], "antlr:parser")
	if p == nil {
		e.record("listener:other", st, c.pos, nil, c.args...)
		return e.tuple(), true
	}
	root := e.sym("antlr:listeners", nil)
	cur, ok := st.heap[root.id]
	if !ok {
		cur = e.seq()
	}
	st.heap[root.id] = e.seq(append(append([]*T{}, cur.args...), e.elem(e.True, e.tuple(p, c.args[1])))...)
	return e.tuple(), true
}

// antlrEntry models the generated entry rule: when the input is not a sentence
// every registered listener is notified; the tree is then in error-recovery
// shape, which the callers must not consume.
func antlrEntry(e *E, st *State, c *callCtx) (*T, bool) {
	p := findApp(c.args[0], "antlr:parser")
	if p == nil {
		p = c.args[0]
	}
	bad := e.atom(e.app("syntaxerror", p))
	root := e.sym("antlr:listeners", nil)
	if cur, ok := st.heap[root.id]; ok && cur.op == OSeq {
		for _, x := range cur.args {
			if x.op != OElem || x.args[1].op != OTuple || x.args[1].args[0] != p {
				continue
			}
			l := x.args[1].args[1]
			e.runUnder(st, e.and(x.args[0], bad), func(s *State) {
				e.overLeaves(s, l, func(s2 *State, recv *T) *T {
					if recv.op != OIface {
						return e.tuple()
					}
					m := e.prog.methodNamed(recv.typ, "SyntaxError")
					if m == nil || m.Blocks == nil {
						return e.tuple()
					}
					args := []*T{recv.args[0], e.sym("antlr:recognizer", nil), e.app("err:symbol", p), e.app("err:line", p), e.app("err:column", p), e.app("err:msg", p), e.app("err:exception", p)}
					e.noteType(args[5], types.Typ[types.String])
					e.callFunc(s2, m, args, nil, c.pos)
					return e.tuple()
				})
			})
		}
	}
	e.record("antlr:entry", st, c.pos, nil, p)
	tt := c.result.At(0).Type()
	var dyn types.Type = tt
	if o := e.prog.ssaPkgs[antlrPkg]; o != nil {
		if k := o.Pkg.Scope().Lookup(c.fn.Name() + "Context"); k != nil {
			dyn = types.NewPointer(k.Type())
		}
	}
	r := e.app("tree:"+strings.ToLower(c.fn.Name()[:1])+c.fn.Name()[1:], p)
	e.noteType(r, dyn)
	return e.iface(dyn, r), true
}

func findApp(t *T, name string) *T {
	if t.op == OApp && t.name == name {
		return t
	}
	for _, a := range t.args {
		if r := findApp(a, name); r != nil {
			return r
		}
	}
	return nil
}

func (e *E) freezeStrings(st *State, v *T) *T {
	return e.contentOf(st, v)
}

func (e *E) upper(v *T) *T {
	return e.lift(v, func(x *T) *T {
		if s, ok := x.isStr(); ok {
			return e.str(strings.ToUpper(s))
		}
		if x.op == OApp && (x.name == "strings.ToUpper" || x.name == "strings.ToLower") {
			x = x.args[0]
		}
		if x.op == OCat {
			var ps []*T
			for _, p := range x.args {
				ps = append(ps, e.upper(p))
			}
			return e.cat(ps...)
		}
		return e.app("strings.ToUpper", x)
	})
}

func (e *E) itoa(v *T) *T {
	return e.lift(v, func(x *T) *T {
		if n, ok := x.isInt(); ok {
			return e.str(strconv.FormatInt(n, 10))
		}
		return e.app("str:int", e.stripConv(x))
	})
}

func (e *E) stripConv(x *T) *T {
	for x.op == OApp && strings.HasPrefix(x.name, "conv:") && len(x.args) == 1 {
		x = x.args[0]
	}
	return x
}

func (e *E) replaceAll(s, old, nw *T) *T {
	return e.lift(s, func(x *T) *T {
		a, ok1 := x.isStr()
		b, ok2 := old.isStr()
		c, ok3 := nw.isStr()
		if ok1 && ok2 && ok3 {
			return e.str(strings.ReplaceAll(a, b, c))
		}
		if e.api && ok2 && ok3 && x.op == OApp && x.name == "strings.ReplaceAll" && len(x.args) == 3 && b == c+c && len(c) == 1 && x.args[1] == nw && x.args[2] == old {
			return x.args[0] // undoubling what was doubled
		}
		r := e.app("strings.ReplaceAll", x, old, nw)
		e.noteType(r, types.Typ[types.String])
		return r
	})
}

func (e *E) wrapErr(msg *T, errs ...*T) *T {
	return e.appT(errorType, "wrap", append([]*T{msg}, errs...)...)
}

func (e *E) errorsIs(a, b *T) *T {
	if a == b {
		return e.True
	}
	if a.op == ONil {
		return e.False
	}
	if a.op == OApp && a.name == "wrap" {
		r := e.False
		for _, w := range a.args[1:] {
			r = e.or(r, e.lift(w, func(x *T) *T { return e.errorsIs(x, b) }))
		}
		return r
	}
	if a.op == OApp && a.name == "errors.New" && (b.op == ONil || b.op == OApp && (b.name == "errors.New" || b.name == "wrap")) {
		return e.False
	}
	return e.atom(e.app("errors.Is", a, b))
}

func (e *E) fprint(st *State, w, s *T) {
	if w.op == OIface {
		p := w.args[0]
		if p.op == OAlloc || p.op == OFieldAddr {
			cell := e.app("builder", p)
			st.heap[cell.id] = e.cat(e.load(st, cell), s)
		}
	}
}

func (e *E) containsCond(seq, v *T) *T {
	r := e.False
	if seq.op != OSeq {
		return e.atom(e.app("contains", seq, v))
	}
	for _, p := range seq.args {
		var c *T
		switch p.op {
		case OElem:
			c = e.eq(p.args[1], v)
		case OSpread:
			c = e.anyOf(p.args[1], e.eq(e.elemVar(p.args[1]), v))
		case OLoop:
			c = e.anyOf(p.args[1], e.containsCond(p.args[2], v))
		default:
			c = e.atom(e.app("contains", e.seq(p), v))
		}
		r = e.or(r, e.and(p.args[0], c))
	}
	return r
}

// format expands a constant format string; it returns the text and the %w
// operands.
func (e *E) format(st *State, f, args *T) (*T, []*T) {
	fs, ok := f.isStr()
	if !ok || args.op != OSeq || !simpleElems(args, e.True) {
		if f.op == OIte {
			var ws []*T
			r := e.lift(f, func(x *T) *T {
				s, w := e.format(st, x, args)
				ws = append(ws, w...)
				return s
			})
			return r, ws
		}
		return e.app("fmt", f, e.freezeSeq(st, args)), nil
	}
	var ps, ws []*T
	k := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			ps = append(ps, e.str(fs[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.*[]", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			break
		}
		verb := fs[i : j+1]
		i = j + 1
		if verb == "%%" {
			ps = append(ps, e.str("%"))
			continue
		}
		if k >= len(args.args) {
			ps = append(ps, e.str("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		a := args.args[k].args[1]
		k++
		if verb == "%w" {
			ws = append(ws, a)
		}
		ps = append(ps, e.fmtVerb(st, verb, a))
	}
	return e.cat(ps...), ws
}

func (e *E) freezeSeq(st *State, s *T) *T {
	if s.op != OSeq {
		return s
	}
	var ps []*T
	for _, p := range s.args {
		n := append([]*T{}, p.args...)
		if p.op == OElem {
			n[1] = e.freeze(st, n[1])
		}
		ps = append(ps, e.mk(&T{op: p.op, args: n}))
	}
	return e.seq(ps...)
}

func (e *E) fmtVerb(st *State, verb string, a *T) *T {
	return e.lift(a, func(x *T) *T {
		if x.op == OIface {
			// String()/Error() methods
			if verb == "%s" || verb == "%v" || verb == "%w" {
				for _, mn := range []string{"Error", "String"} {
					if m := e.prog.methodNamed(x.typ, mn); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && isString(m.Signature.Results().At(0).Type()) {
						if m.Blocks != nil && !e.prog.isExternal(m) && e.inStack(m) < 2 {
							return e.callFunc(st, m, []*T{x.args[0]}, nil, 0)
						}
						return e.app("str:"+mn, x)
					}
				}
			}
			v := x.args[0]
			if b, ok := x.typ.Underlying().(*types.Basic); ok {
				switch {
				case b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v"):
					return v
				case b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
					return e.itoa(v)
				}
			}
			if v.op == OConst {
				if b, ok := x.typ.Underlying().(*types.Basic); ok && (verb == "%v" || verb == "%g") {
					f, isF := v.isFloat()
					switch {
					case verb == "%v" && v.cv.Kind() == constant.Bool:
						return e.str(fmt.Sprint(constant.BoolVal(v.cv)))
					case isF && b.Kind() == types.Float64:
						return e.str(fmt.Sprintf(verb, f))
					case isF && b.Kind() == types.Float32:
						return e.str(fmt.Sprintf(verb, float32(f)))
					}
				}
				switch verb {
				case "%c":
					if n, ok := v.isInt(); ok {
						return e.str(string(rune(n)))
					}
				case "%q":
					if s, ok := v.isStr(); ok {
						return e.str(strconv.Quote(s))
					}
				case "%t":
					if v.cv.Kind() == constant.Bool {
						return e.str(fmt.Sprint(constant.BoolVal(v.cv)))
					}
				}
			}
			if s, ok := e.fmtPrec(verb, x); ok {
				return e.str(s)
			}
			r := e.app("str:"+verb, e.freeze(st, x))
			return r
		}
		if x.op == OApp && (x.name == "wrap" || x.name == "errors.New") {
			return x.args[0]
		}
		if x.op == ONil && verb == "%v" {
			return e.str("<nil>")
		}
		return e.app("str:"+verb, x)
	})
}

// fmtPrec formats a constant of a basic type with flags, width or precision.
func (e *E) fmtPrec(verb string, x *T) (string, bool) {
	v := x.args[0]
	b, ok := x.typ.(*types.Basic)
	if !ok || v.op != OConst || strings.ContainsAny(verb, "*[") || len(verb) < 3 {
		return "", false
	}
	if s, ok := v.isStr(); ok && strings.IndexByte("sqvxX", verb[len(verb)-1]) >= 0 {
		return fmt.Sprintf(verb, s), true
	}
	if n, ok := v.isInt(); ok && b.Info()&types.IsInteger != 0 && strings.IndexByte("dxXv", verb[len(verb)-1]) >= 0 {
		return fmt.Sprintf(verb, n), true
	}
	return "", false
}

// genericModel covers families of external functions.
func (e *E) genericModel(st *State, c *callCtx) (*T, bool) {
	if c.fn == nil || !e.prog.isExternal(c.fn) {
		return nil, false
	}
	pp := fnPkgPath(c.fn)
	switch {
	case strings.HasSuffix(pp, "go-logger/log"):
		return e.results("call:"+c.name, c.args, c.result), true
	case c.fn.Name() == "init":
		return e.tuple(), true
	case c.name == "time.Now" || strings.HasPrefix(c.name, "github.com/google/uuid.New"):
		r := e.app("fresh:" + c.name + "@" + e.prog.where(c.pos))
		if c.result.Len() == 1 {
			e.noteType(r, c.result.At(0).Type())
			return r, true
		}
		return e.tuple(r, e.app("fresherr:"+c.name+"@"+e.prog.where(c.pos))), true
	case pp == "strings":
		if r := e.foldStrings(c.fn.Name(), c.args); r != nil {
			return r, true
		}
		if c.result.Len() == 1 && !strings.Contains(c.name, "(") {
			return e.results(c.name, c.args, c.result), true
		}
	}
	return nil, false
}

func (e *E) foldStrings(name string, args []*T) *T {
	var f2 func(a, b string) *T
	var f1 func(a string) *T
	switch name {
	case "HasPrefix":
		f2 = func(a, b string) *T { return e.boolc(strings.HasPrefix(a, b)) }
	case "HasSuffix":
		f2 = func(a, b string) *T { return e.boolc(strings.HasSuffix(a, b)) }
	case "Contains":
		f2 = func(a, b string) *T { return e.boolc(strings.Contains(a, b)) }
	case "Index":
		f2 = func(a, b string) *T { return e.intc(strings.Index(a, b)) }
	case "Count":
		f2 = func(a, b string) *T { return e.intc(strings.Count(a, b)) }
	case "Trim":
		f2 = func(a, b string) *T { return e.str(strings.Trim(a, b)) }
	case "TrimLeft":
		f2 = func(a, b string) *T { return e.str(strings.TrimLeft(a, b)) }
	case "TrimRight":
		f2 = func(a, b string) *T { return e.str(strings.TrimRight(a, b)) }
	case "TrimPrefix":
		f2 = func(a, b string) *T { return e.str(strings.TrimPrefix(a, b)) }
	case "TrimSuffix":
		f2 = func(a, b string) *T { return e.str(strings.TrimSuffix(a, b)) }
	case "ToLower":
		f1 = func(a string) *T { return e.str(strings.ToLower(a)) }
	case "TrimSpace":
		f1 = func(a string) *T { return e.str(strings.TrimSpace(a)) }
	case "Clone":
		return args[0]
	}
	isB := name == "HasPrefix" || name == "HasSuffix" || name == "Contains"
	gen := func(as ...*T) *T {
		r := e.app("strings."+name, as...)
		if isB {
			return e.atom(r)
		}
		if name == "Index" || name == "Count" {
			e.noteType(r, types.Typ[types.Int])
		} else {
			e.noteType(r, types.Typ[types.String])
		}
		return r
	}
	if f2 != nil && len(args) == 2 {
		return e.lift2(args[0], args[1], func(a, b *T) *T {
			x, ok1 := a.isStr()
			y, ok2 := b.isStr()
			if ok1 && ok2 {
				return f2(x, y)
			}
			if ok2 && name == "HasPrefix" && a.op == OCat {
				if p, ok := a.args[0].isStr(); ok && len(p) >= len(y) {
					return e.boolc(strings.HasPrefix(p, y))
				}
			}
			if ok2 && name == "HasSuffix" && a.op == OCat {
				if p, ok := a.args[len(a.args)-1].isStr(); ok && len(p) >= len(y) {
					return e.boolc(strings.HasSuffix(p, y))
				}
			}
			return gen(a, b)
		})
	}
	if f1 != nil && len(args) == 1 {
		return e.lift(args[0], func(a *T) *T {
			if x, ok := a.isStr(); ok {
				return f1(x)
			}
			return gen(a)
		})
	}
	return nil
}
