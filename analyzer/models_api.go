package main

import (
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
)

// Models used when public operations are evaluated on given inputs (e.api).

const safecastPkg = "github.com/cybergarage/go-safecast/safecast."

// castTerm is the condition under which v converts to the named type, and the
// converted value.
func (e *E) castTerm(to string, v *T) (ok, val *T) {
	if v.op == OIte {
		o := e.lift(v, func(x *T) *T { a, _ := e.castTerm(to, x); return a })
		w := e.lift(v, func(x *T) *T { _, b := e.castTerm(to, x); return b })
		return o, w
	}
	if to == "String" && v.op == ONil {
		return e.True, e.str("")
	}
	if r := e.foldCast(to, v); r != nil {
		if r.op == OTop {
			return e.False, r
		}
		return e.True, r
	}
	if v.op == OIface {
		if to == "String" && v.args[0].op == OApp && v.args[0].name == "bytes" {
			return e.True, v.args[0].args[0]
		}
		if to == "String" && (v.args[0] == e.True || v.args[0] == e.False) {
			return e.True, e.str(strconv.FormatBool(v.args[0] == e.True))
		}
		if b, isB := v.typ.Underlying().(*types.Basic); isB {
			switch {
			case to == "Float64" && b.Info()&types.IsFloat != 0:
				return e.True, v.args[0]
			case to == "Float64" && b.Info()&types.IsInteger != 0:
				return e.True, e.app("conv:float64", v.args[0])
			case to == "String" && b.Info()&types.IsString != 0:
				return e.True, v.args[0]
			case to == "String" && b.Info()&types.IsInteger != 0:
				return e.True, e.itoa(v.args[0])
			}
		}
	}
	c := e.app("cast:"+to, v)
	switch to {
	case "String":
		e.noteType(c, types.Typ[types.String])
	case "Float64":
		e.noteType(c, types.Typ[types.Float64])
	}
	return e.atom(e.app("castable:"+to, v)), c
}

func constArgs(as []*T) bool {
	for _, a := range as {
		if a.op != OConst {
			return false
		}
	}
	return true
}

func (e *E) strSlice(st *State, ss []string) *T {
	var ps []*T
	for _, s := range ss {
		ps = append(ps, e.elem(e.True, e.str(s)))
	}
	return e.newSlice(st, e.seq(ps...))
}

// liftArgs applies f to every combination of the leaves of the arguments.
func (e *E) liftArgs(as []*T, f func([]*T) *T) *T {
	for i, a := range as {
		if a.op == OIte {
			return e.lift(a, func(x *T) *T {
				n := append([]*T{}, as...)
				n[i] = x
				return e.liftArgs(n, f)
			})
		}
	}
	return f(as)
}

// constBytes gives constant bytes as text, which converts to the same text.
func (e *E) constBytes(st *State, v *T) *T {
	if v.op != OIface {
		return v
	}
	sl, ok := v.typ.(*types.Slice)
	if !ok || !types.Identical(sl.Elem(), types.Typ[types.Uint8]) {
		return v
	}
	seq := e.contentOf(st, v.args[0])
	if !simpleElems(seq, e.True) {
		return v
	}
	var b []byte
	for _, p := range seq.args {
		n, ok := p.args[1].isInt()
		if !ok {
			return v
		}
		b = append(b, byte(n))
	}
	return e.iface(types.Typ[types.String], e.str(string(b)))
}

func registerAPIModels(e *E) {
	reg := func(name string, m model) {
		old := e.models[name]
		e.models[name] = func(e *E, st *State, c *callCtx) (*T, bool) {
			if e.api {
				if r, ok := m(e, st, c); ok {
					return r, true
				}
			}
			if old != nil {
				return old(e, st, c)
			}
			return nil, false
		}
	}
	for _, t := range []string{"Float64", "Float32", "String", "Int", "Int8", "Int16", "Int32", "Int64", "Bool", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Time", "Bytes"} {
		t := t
		reg(safecastPkg+"To"+t, func(e *E, st *State, c *callCtx) (*T, bool) {
			from := c.args[0]
			if t == "String" {
				from = e.constBytes(st, from)
			}
			ok, v := e.castTerm(t, from)
			if c.args[1].op == OAlloc || c.args[1].op == OFieldAddr || c.args[1].op == OIndexAddr {
				old := e.load(st, c.args[1])
				e.store(st, c.args[1], e.ite(ok, v, old))
			}
			return e.ite(ok, e.Nil, e.appT(errorType, "wrap", e.app("casterr:"+t, c.args[0]))), true
		})
	}
	// To converts to the type the target points to
	reg(safecastPkg+"To", func(e *E, st *State, c *callCtx) (*T, bool) {
		to := c.args[1]
		if to.op != OIface || to.args[0].op != OAlloc {
			return nil, false
		}
		p, ok := to.typ.(*types.Pointer)
		if !ok {
			return nil, false
		}
		b, ok := p.Elem().(*types.Basic)
		if !ok {
			return nil, false
		}
		t := strings.ToUpper(b.Name()[:1]) + b.Name()[1:]
		can, v := e.castTerm(t, c.args[0])
		e.store(st, to.args[0], e.ite(can, v, e.load(st, to.args[0])))
		return e.ite(can, e.Nil, e.appT(errorType, "wrap", e.app("casterr:"+t, c.args[0]))), true
	})
	reg(safecastPkg+"Compare", func(e *E, st *State, c *callCtx) (*T, bool) {
		a, b := c.args[0], c.args[1]
		x, y := a, b
		if a.op == OIface {
			x = a.args[0]
		}
		if b.op == OIface {
			y = b.args[0]
		}
		if x.op == ONil || y.op == ONil {
			// only text can be compared with nil, as with an empty text
			o := x
			if o.op == ONil {
				o = y
			}
			if o.op == ONil {
				return e.tuple(e.intc(0), e.Nil), true
			}
			if o.op == OConst {
				if s, ok := o.isStr(); ok {
					return e.tuple(e.intc(strings.Compare(s, "")), e.Nil), true
				}
				return e.tuple(e.intc(0), e.appT(errorType, "wrap", e.app("cmperr", a, b))), true
			}
		}
		if x.op == OConst && y.op == OConst {
			if (x.cv.Kind() == constant.String) == (y.cv.Kind() == constant.String) && x.cv.Kind() != constant.Bool && y.cv.Kind() != constant.Bool {
				n := 0
				if e.lt(x, y) == e.True {
					n = -1
				} else if e.lt(y, x) == e.True {
					n = 1
				}
				return e.tuple(e.intc(n), e.Nil), true
			}
		}
		return nil, false
	})
	// strings on constants
	pure := map[string]func(a []*T) *T{
		"strings.LastIndex": func(a []*T) *T { x, _ := a[0].isStr(); y, _ := a[1].isStr(); return e.intc(strings.LastIndex(x, y)) },
		"strings.IndexByte": func(a []*T) *T {
			x, _ := a[0].isStr()
			n, _ := a[1].isInt()
			return e.intc(strings.IndexByte(x, byte(n)))
		},
		"strings.LastIndexByte": func(a []*T) *T {
			x, _ := a[0].isStr()
			n, _ := a[1].isInt()
			return e.intc(strings.LastIndexByte(x, byte(n)))
		},
		"strings.IndexRune": func(a []*T) *T {
			x, _ := a[0].isStr()
			n, _ := a[1].isInt()
			return e.intc(strings.IndexRune(x, rune(n)))
		},
		"strings.IndexAny":    func(a []*T) *T { x, _ := a[0].isStr(); y, _ := a[1].isStr(); return e.intc(strings.IndexAny(x, y)) },
		"strings.ContainsAny": func(a []*T) *T { x, _ := a[0].isStr(); y, _ := a[1].isStr(); return e.boolc(strings.ContainsAny(x, y)) },
		"strings.ContainsRune": func(a []*T) *T {
			x, _ := a[0].isStr()
			n, _ := a[1].isInt()
			return e.boolc(strings.ContainsRune(x, rune(n)))
		},
		"strings.Repeat":                 func(a []*T) *T { x, _ := a[0].isStr(); n, _ := a[1].isInt(); return e.str(strings.Repeat(x, int(n))) },
		"strings.ToValidUTF8":            func(a []*T) *T { x, _ := a[0].isStr(); y, _ := a[1].isStr(); return e.str(strings.ToValidUTF8(x, y)) },
		"strings.Title":                  func(a []*T) *T { x, _ := a[0].isStr(); return e.str(strings.Title(x)) },
		"strconv.Quote":                  func(a []*T) *T { x, _ := a[0].isStr(); return e.str(strconv.Quote(x)) },
		"unicode.IsDigit":                func(a []*T) *T { n, _ := a[0].isInt(); return e.boolc(unicode.IsDigit(rune(n))) },
		"unicode.IsLetter":               func(a []*T) *T { n, _ := a[0].isInt(); return e.boolc(unicode.IsLetter(rune(n))) },
		"unicode.IsSpace":                func(a []*T) *T { n, _ := a[0].isInt(); return e.boolc(unicode.IsSpace(rune(n))) },
		"unicode.IsUpper":                func(a []*T) *T { n, _ := a[0].isInt(); return e.boolc(unicode.IsUpper(rune(n))) },
		"unicode.IsLower":                func(a []*T) *T { n, _ := a[0].isInt(); return e.boolc(unicode.IsLower(rune(n))) },
		"unicode.ToUpper":                func(a []*T) *T { n, _ := a[0].isInt(); return e.intc(int(unicode.ToUpper(rune(n)))) },
		"unicode.ToLower":                func(a []*T) *T { n, _ := a[0].isInt(); return e.intc(int(unicode.ToLower(rune(n)))) },
		"unicode/utf8.RuneCountInString": func(a []*T) *T { x, _ := a[0].isStr(); return e.intc(len([]rune(x))) },
	}
	for n, f := range pure {
		f := f
		n := n
		reg(n, func(e *E, st *State, c *callCtx) (*T, bool) {
			bad := false
			r := e.liftArgs(c.args, func(as []*T) *T {
				if !constArgs(as) {
					bad = true
					return e.Nil
				}
				return f(as)
			})
			return r, !bad
		})
	}
	// slices out of constants
	reg("strings.Split", func(e *E, st *State, c *callCtx) (*T, bool) {
		x, ok1 := c.args[0].isStr()
		y, ok2 := c.args[1].isStr()
		if ok1 && ok2 {
			return e.strSlice(st, strings.Split(x, y)), true
		}
		return nil, false
	})
	reg("strings.SplitN", func(e *E, st *State, c *callCtx) (*T, bool) {
		x, ok1 := c.args[0].isStr()
		y, ok2 := c.args[1].isStr()
		n, ok3 := c.args[2].isInt()
		if ok1 && ok2 && ok3 {
			return e.strSlice(st, strings.SplitN(x, y, int(n))), true
		}
		return nil, false
	})
	reg("strings.Fields", func(e *E, st *State, c *callCtx) (*T, bool) {
		if x, ok := c.args[0].isStr(); ok {
			return e.strSlice(st, strings.Fields(x)), true
		}
		return nil, false
	})
	reg("strings.Cut", func(e *E, st *State, c *callCtx) (*T, bool) {
		x, ok1 := c.args[0].isStr()
		y, ok2 := c.args[1].isStr()
		if ok1 && ok2 {
			a, b, ok := strings.Cut(x, y)
			return e.tuple(e.str(a), e.str(b), e.boolc(ok)), true
		}
		return nil, false
	})
	for _, n := range []string{"CutPrefix", "CutSuffix"} {
		n := n
		reg("strings."+n, func(e *E, st *State, c *callCtx) (*T, bool) {
			x, ok1 := c.args[0].isStr()
			y, ok2 := c.args[1].isStr()
			if !ok1 || !ok2 {
				return nil, false
			}
			a, ok := strings.CutPrefix(x, y)
			if n == "CutSuffix" {
				a, ok = strings.CutSuffix(x, y)
			}
			return e.tuple(e.str(a), e.boolc(ok)), true
		})
	}
	reg("strings.Replace", func(e *E, st *State, c *callCtx) (*T, bool) {
		if constArgs(c.args) {
			x, _ := c.args[0].isStr()
			y, _ := c.args[1].isStr()
			z, _ := c.args[2].isStr()
			n, _ := c.args[3].isInt()
			return e.str(strings.Replace(x, y, z, int(n))), true
		}
		return nil, false
	})
	for _, n := range []string{"sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc"} {
		n := n
		reg(n, func(e *E, st *State, c *callCtx) (*T, bool) { return e.sortModel(st, n, c) })
	}
	reg(safecastPkg+"Equal", func(e *E, st *State, c *callCtx) (*T, bool) {
		str := func(t *T) bool {
			return t.op == OIface && types.Identical(t.typ, types.Typ[types.String])
		}
		if str(c.args[0]) && str(c.args[1]) {
			return e.eq(c.args[0].args[0], c.args[1].args[0]), true
		}
		if str(c.args[0]) && c.args[1].op == ONil || str(c.args[1]) && c.args[0].op == ONil {
			return e.False, true
		}
		return nil, false
	})
	reg("slices.Clip", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.lift(c.args[0], func(x *T) *T {
			if x.op == ONil {
				return x
			}
			// no spare capacity: an append to it copies
			return e.newSlice(st, e.contentOf(st, x))
		}), true
	})
	// the keys and values of a map, in the order under analysis
	for i, n := range []string{"maps.Keys", "maps.Values"} {
		i := i
		reg(n, func(e *E, st *State, c *callCtx) (*T, bool) {
			m := e.mapContent(st, c.args[0])
			if m.op != OMap || m.name != "" || !e.distinctKeys(m) {
				return nil, false
			}
			var ps []*T
			for _, s := range e.mapSegs(m) {
				ps = append(ps, e.elem(e.True, [2]*T{s.key, s.val}[i]))
			}
			return e.app("iter", e.seq(ps...)), true
		})
	}
	reg("slices.Values", func(e *E, st *State, c *callCtx) (*T, bool) {
		return e.app("iter", e.contentOf(st, c.args[0])), true
	})
	reg("slices.Collect", func(e *E, st *State, c *callCtx) (*T, bool) {
		if a := c.args[0]; a.op == OApp && a.name == "iter" {
			return e.newSlice(st, a.args[0]), true
		}
		return nil, false
	})
	for _, n := range []string{"slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc"} {
		reg(n, func(e *E, st *State, c *callCtx) (*T, bool) {
			a := c.args[0]
			if a.op != OApp || a.name != "iter" {
				return nil, false
			}
			s := e.newSlice(st, a.args[0])
			d := *c
			d.args = append([]*T{s}, c.args[1:]...)
			if _, ok := e.sortModel(st, "slices.Sort", &d); !ok {
				return nil, false
			}
			return s, true
		})
	}
	reg("slices.Reverse", func(e *E, st *State, c *callCtx) (*T, bool) {
		v := c.args[0]
		if v.op != OSlice {
			return nil, false
		}
		q, ok := st.heap[v.args[0].id]
		if !ok || q.op != OSeq || !simpleElems(q, e.True) || e.contentOf(st, v) != q {
			return nil, false
		}
		var ps []*T
		for i := len(q.args) - 1; i >= 0; i-- {
			ps = append(ps, q.args[i])
		}
		st.heap[v.args[0].id] = e.seq(ps...)
		return e.tuple(), true
	})
	// searches in lists of known length
	for _, n := range []string{"slices.Index", "slices.IndexFunc", "slices.ContainsFunc"} {
		n := n
		reg(n, func(e *E, st *State, c *callCtx) (*T, bool) {
			q := e.contentOf(st, c.args[0])
			if !simpleElems(q, e.True) || len(q.args) > 16 {
				return nil, false
			}
			f := c.args[1]
			if n != "slices.Index" && (f.op != OClosure || f.fn.Blocks == nil) {
				return nil, false
			}
			r := e.intc(-1)
			if n == "slices.ContainsFunc" {
				r = e.False
			}
			for i := len(q.args) - 1; i >= 0; i-- {
				var hit *T
				if n == "slices.Index" {
					hit = e.eq(q.args[i].args[1], f)
				} else {
					hit = e.callFunc(st, f.fn, []*T{q.args[i].args[1]}, f.args, c.pos)
				}
				if n == "slices.ContainsFunc" {
					r = e.or(hit, r)
				} else {
					r = e.ite(hit, e.intc(i), r)
				}
			}
			return r, true
		})
	}
	// functions of strings that take a function of runes, on constants
	uni := map[string]func(rune) bool{"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl}
	uniMap := map[string]func(rune) rune{"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.ToTitle": unicode.ToTitle}
	runes := func(name string, f func(x string, call func(rune) *T) *T) {
		reg("strings."+name, func(e *E, st *State, c *callCtx) (*T, bool) {
			fi, si := 1, 0
			if name == "Map" {
				fi, si = 0, 1
			}
			x, ok := c.args[si].isStr()
			fn := c.args[fi]
			if !ok || len(x) > 400 || fn.op != OClosure {
				return nil, false
			}
			r := f(x, func(r rune) *T {
				if u := uni[fn.fn.String()]; u != nil {
					return e.boolc(u(r))
				}
				if u := uniMap[fn.fn.String()]; u != nil {
					return e.intc(int(u(r)))
				}
				if fn.fn.Blocks == nil || e.prog.isExternal(fn.fn) {
					return nil
				}
				return e.callFunc(st, fn.fn, []*T{e.intc(int(r))}, fn.args, c.pos)
			})
			return r, r != nil
		})
	}
	runes("Map", func(x string, call func(rune) *T) *T {
		var sb strings.Builder
		for _, r := range x {
			t := call(r)
			if t == nil {
				return nil
			}
			n, ok := t.isInt()
			if !ok {
				return nil
			}
			if n >= 0 {
				sb.WriteRune(rune(n))
			}
		}
		return e.str(sb.String())
	})
	pred := func(name string, g func(x string, p func(rune) bool) *T) {
		runes(name, func(x string, call func(rune) *T) *T {
			ok := true
			memo := map[rune]bool{}
			p := func(r rune) bool {
				if v, seen := memo[r]; seen {
					return v
				}
				t := call(r)
				ok = ok && (t == e.True || t == e.False)
				memo[r] = t == e.True
				return t == e.True
			}
			r := g(x, p)
			if !ok {
				return nil
			}
			return r
		})
	}
	pred("TrimFunc", func(x string, p func(rune) bool) *T { return e.str(strings.TrimFunc(x, p)) })
	pred("TrimLeftFunc", func(x string, p func(rune) bool) *T { return e.str(strings.TrimLeftFunc(x, p)) })
	pred("TrimRightFunc", func(x string, p func(rune) bool) *T { return e.str(strings.TrimRightFunc(x, p)) })
	pred("IndexFunc", func(x string, p func(rune) bool) *T { return e.intc(strings.IndexFunc(x, p)) })
	pred("LastIndexFunc", func(x string, p func(rune) bool) *T { return e.intc(strings.LastIndexFunc(x, p)) })
	pred("ContainsFunc", func(x string, p func(rune) bool) *T { return e.boolc(strings.ContainsFunc(x, p)) })
	reg("slices.Insert", func(e *E, st *State, c *callCtx) (*T, bool) {
		s := e.contentOf(st, c.args[0])
		a := e.subSeq(s, e.intc(0), c.args[1])
		b := e.subSeq(s, c.args[1], nil)
		ps := append([]*T{}, a.args...)
		ps = append(ps, e.contentOf(st, c.args[2]).args...)
		return e.newSlice(st, e.seq(append(ps, b.args...)...)), true
	})
	reg("strconv.Atoi", func(e *E, st *State, c *callCtx) (*T, bool) {
		if x, ok := c.args[0].isStr(); ok {
			n, err := strconv.Atoi(x)
			if err != nil {
				return e.tuple(e.intc(n), e.wrapErr(e.str(err.Error()))), true
			}
			return e.tuple(e.intc(n), e.Nil), true
		}
		return nil, false
	})
	parse := func(name string, f func(x string, a []int64) (*T, error)) {
		reg("strconv."+name, func(e *E, st *State, c *callCtx) (*T, bool) {
			x, ok := c.args[0].isStr()
			if !ok {
				return nil, false
			}
			var as []int64
			for _, a := range c.args[1:] {
				n, ok := a.isInt()
				if !ok {
					return nil, false
				}
				as = append(as, n)
			}
			v, err := f(x, as)
			if v == nil {
				return nil, false
			}
			if err != nil {
				return e.tuple(v, e.wrapErr(e.str(err.Error()))), true
			}
			return e.tuple(v, e.Nil), true
		})
	}
	parse("ParseInt", func(x string, a []int64) (*T, error) {
		n, err := strconv.ParseInt(x, int(a[0]), int(a[1]))
		return e.constant(constant.MakeInt64(n), types.Typ[types.Int64]), err
	})
	parse("ParseUint", func(x string, a []int64) (*T, error) {
		n, err := strconv.ParseUint(x, int(a[0]), int(a[1]))
		return e.constant(constant.MakeUint64(n), types.Typ[types.Uint64]), err
	})
	parse("ParseBool", func(x string, a []int64) (*T, error) {
		b, err := strconv.ParseBool(x)
		return e.boolc(b), err
	})
	parse("ParseFloat", func(x string, a []int64) (*T, error) {
		f, err := strconv.ParseFloat(x, int(a[0]))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil, nil
		}
		return e.constant(constant.MakeFloat64(f), types.Typ[types.Float64]), err
	})
	reg("strconv.FormatFloat", func(e *E, st *State, c *callCtx) (*T, bool) {
		if isNaNSym(c.args[0]) {
			return e.str("NaN"), true
		}
		if s := infSign(c.args[0]); s != 0 {
			return e.str([]string{"-Inf", "", "+Inf"}[s+1]), true
		}
		if constArgs(c.args) {
			f, ok := c.args[0].isFloat()
			fm, _ := c.args[1].isInt()
			pr, _ := c.args[2].isInt()
			bs, _ := c.args[3].isInt()
			if ok {
				return e.str(strconv.FormatFloat(f, byte(fm), int(pr), int(bs))), true
			}
		}
		return nil, false
	})
	// a replacer over constants
	reg("strings.NewReplacer", func(e *E, st *State, c *callCtx) (*T, bool) {
		seq := e.contentOf(st, c.args[0])
		if simpleElems(seq, e.True) {
			var as []*T
			for _, p := range seq.args {
				as = append(as, p.args[1])
			}
			if constArgs(as) {
				return e.app("replacer", as...), true
			}
		}
		return nil, false
	})
	reg("(*strings.Replacer).Replace", func(e *E, st *State, c *callCtx) (*T, bool) {
		if c.args[0].op == OApp && c.args[0].name == "replacer" {
			var ss []string
			for _, a := range c.args[0].args {
				s, _ := a.isStr()
				ss = append(ss, s)
			}
			if x, ok := c.args[1].isStr(); ok {
				return e.str(strings.NewReplacer(ss...).Replace(x)), true
			}
			if len(ss) == 2 && ss[0] != "" {
				return e.replaceAll(c.args[1], e.str(ss[0]), e.str(ss[1])), true
			}
		}
		return nil, false
	})
	reg("math.Inf", func(e *E, st *State, c *callCtx) (*T, bool) {
		if n, ok := c.args[0].isInt(); ok {
			if n >= 0 {
				return e.sym("+Inf", types.Typ[types.Float64]), true
			}
			return e.sym("-Inf", types.Typ[types.Float64]), true
		}
		return nil, false
	})
	for n := range mathFolds {
		n := n
		reg("math."+n, func(e *E, st *State, c *callCtx) (*T, bool) {
			return e.lift(c.args[0], func(x *T) *T {
				if f, ok := x.isFloat(); ok {
					return e.floatc(mathFolds[n](f))
				}
				r := e.app("call:math."+n, x)
				e.noteType(r, types.Typ[types.Float64])
				return r
			}), true
		})
	}
	for _, n := range []string{"Pow", "Mod", "Max", "Min", "Remainder"} {
		n := n
		reg("math."+n, func(e *E, st *State, c *callCtx) (*T, bool) {
			as := []*T{e.restrict(c.args[0], st.pc), e.restrict(c.args[1], st.pc)}
			return e.liftArgs(as, func(as []*T) *T {
				r := e.fold1("call:math."+n, as...)
				e.noteType(r, types.Typ[types.Float64])
				return r
			}), true
		})
	}
	reg("math.IsNaN", func(e *E, st *State, c *callCtx) (*T, bool) {
		if _, ok := c.args[0].isFloat(); ok || infSign(c.args[0]) != 0 {
			return e.False, true
		}
		if isNaNSym(c.args[0]) {
			return e.True, true
		}
		return nil, false
	})
	reg("math.IsInf", func(e *E, st *State, c *callCtx) (*T, bool) {
		if _, ok := c.args[0].isFloat(); ok || isNaNSym(c.args[0]) {
			return e.False, true
		}
		if s := infSign(c.args[0]); s != 0 {
			if n, ok := c.args[1].isInt(); ok {
				return e.boolc(n == 0 || (n > 0) == (s > 0)), true
			}
		}
		return nil, false
	})
}

// sortModel orders a list of known length: a bubble sort whose exchanges are
// conditional on the comparisons, evaluated on the list as it is then.
func (e *E) sortModel(st *State, name string, c *callCtx) (*T, bool) {
	v := c.args[0]
	if v.op == OIface {
		v = v.args[0]
	}
	if v.op != OSlice {
		return nil, false
	}
	root := v.args[0]
	seq, ok := st.heap[root.id]
	if !ok || seq.op != OSeq || !simpleElems(seq, e.True) || len(seq.args) > 5 && (len(c.args) > 1 || !constElems(seq)) || e.contentOf(st, v) != seq {
		return nil, false
	}
	n := len(seq.args)
	var f *T
	if len(c.args) > 1 {
		f = c.args[1]
		if f.op != OClosure || f.fn.Blocks == nil {
			return nil, false
		}
	}
	at := func(i int) *T { return st.heap[root.id].args[i].args[1] }
	less := func(i, j int) *T {
		switch {
		case f == nil:
			return e.lt(at(i), at(j))
		case strings.HasPrefix(name, "sort."):
			return e.callFunc(st, f.fn, []*T{e.intc(i), e.intc(j)}, f.args, c.pos)
		default:
			return e.lt(e.callFunc(st, f.fn, []*T{at(i), at(j)}, f.args, c.pos), e.intc(0))
		}
	}
	if e.sortCmp != nil {
		for i := 0; i < n; i++ {
			e.sortCmp(c.pos, e.and(st.pc, less(i, i)))
		}
	}
	for k := n - 1; k > 0; k-- {
		for i := 0; i < k; i++ {
			sw := less(i+1, i)
			if e.sortCmp != nil {
				e.sortCmp(c.pos, e.and(st.pc, e.and(sw, less(i, i+1))))
			}
			a, b := at(i), at(i+1)
			ps := append([]*T{}, st.heap[root.id].args...)
			ps[i] = e.elem(e.True, e.ite(sw, b, a))
			ps[i+1] = e.elem(e.True, e.ite(sw, a, b))
			st.heap[root.id] = e.seq(ps...)
		}
	}
	return e.tuple(), true
}

func constElems(seq *T) bool {
	for _, p := range seq.args {
		if p.args[1].op != OConst {
			return false
		}
	}
	return true
}

// the floats that are no numbers
func isNaNSym(t *T) bool {
	t = unconv(t)
	return t.op == OSym && t.name == "NaN"
}

func unconv(t *T) *T {
	for t.op == OApp && (t.name == "conv:float64" || t.name == "conv:float32") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

func infSign(t *T) int {
	t = unconv(t)
	if t.op == OSym && t.name == "+Inf" {
		return 1
	}
	if t.op == OSym && t.name == "-Inf" {
		return -1
	}
	return 0
}
