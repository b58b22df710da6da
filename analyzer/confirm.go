package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// This file decides conditions over the free inputs of a public operation. A
// condition that simplifies to false is discharged. A remaining condition is
// reported only after it has been confirmed: some assignment of constants to its
// inputs makes the condition fold to true. Otherwise it stays undecided.

// inst rebuilds t with the given subterms replaced, folding constants.
func (e *E) inst(t *T, m map[int]*T) *T {
	memo := map[int]*T{}
	var rec func(x *T) *T
	rec = func(x *T) *T {
		if r, ok := m[x.id]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		as := make([]*T, len(x.args))
		var r *T
		if x.op == OIte {
			c := rec(x.args[0])
			switch c {
			case e.True:
				r = rec(x.args[1])
			case e.False:
				r = rec(x.args[2])
			default:
				if c.op != OIte {
					c = e.atom(c)
				}
				r = e.ite(c, rec(x.args[1]), rec(x.args[2]))
			}
			memo[x.id] = r
			return r
		}
		for i, a := range x.args {
			as[i] = rec(a)
		}
		if x.op == OApp {
			r = e.foldApp(x.name, as)
		}
		if r == nil {
			r = e.rebuild(x, as)
			if x.op == OApp {
				if t, ok := e.rtypes[x.id]; ok {
					e.noteType(r, t)
				}
			}
		}
		memo[x.id] = r
		return r
	}
	return rec(t)
}

func (t *T) isFloat() (float64, bool) {
	if t.op == OConst && (t.cv.Kind() == constant.Int || t.cv.Kind() == constant.Float) {
		f, _ := constant.Float64Val(t.cv)
		return f, true
	}
	return 0, false
}

func (e *E) floatc(f float64) *T {
	if math.IsInf(f, 1) {
		return e.sym("+Inf", types.Typ[types.Float64])
	}
	if math.IsInf(f, -1) {
		return e.sym("-Inf", types.Typ[types.Float64])
	}
	if math.IsNaN(f) {
		return e.top("NaN")
	}
	v := constant.MakeFloat64(f)
	if iv := constant.ToInt(v); iv.Kind() == constant.Int {
		v = iv
	}
	return e.constant(v, nil)
}

var mathFolds = map[string]func(float64) float64{
	"Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Round": math.Round, "Sqrt": math.Sqrt, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Exp": math.Exp,
	"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Trunc": math.Trunc, "RoundToEven": math.RoundToEven, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Cbrt": math.Cbrt,
	"Exp2": math.Exp2, "Expm1": math.Expm1, "Log1p": math.Log1p, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh,
}

// foldApp folds an application of a known function to constants; nil when it
// cannot.
func (e *E) foldApp(name string, a []*T) *T {
	str := func(i int) (string, bool) {
		if i < len(a) {
			return a[i].isStr()
		}
		return "", false
	}
	num := func(i int) (int64, bool) {
		if i < len(a) {
			return a[i].isInt()
		}
		return 0, false
	}
	switch {
	case strings.HasPrefix(name, "call:math.") && len(a) == 1:
		if f := mathFolds[strings.TrimPrefix(name, "call:math.")]; f != nil {
			if x, ok := a[0].isFloat(); ok {
				return e.floatc(f(x))
			}
		}
	case (name == "call:math.Pow" || name == "call:math.Mod" || name == "call:math.Max" || name == "call:math.Min" || name == "call:math.Remainder") && len(a) == 2:
		x, ok1 := a[0].isFloat()
		y, ok2 := a[1].isFloat()
		if ok1 && ok2 {
			switch name {
			case "call:math.Pow":
				return e.floatc(math.Pow(x, y))
			case "call:math.Mod":
				return e.floatc(math.Mod(x, y))
			case "call:math.Remainder":
				return e.floatc(math.Remainder(x, y))
			case "call:math.Max":
				return e.floatc(math.Max(x, y))
			default:
				return e.floatc(math.Min(x, y))
			}
		}
	case strings.HasPrefix(name, "conv:") && len(a) == 1:
		if f, ok := a[0].isFloat(); ok {
			switch t := strings.TrimPrefix(name, "conv:"); {
			case strings.HasPrefix(t, "int") || strings.HasPrefix(t, "uint") || t == "byte" || t == "rune":
				if n, ok := a[0].isInt(); ok {
					switch t {
					case "int", "int64":
						return e.intc(int(n))
					case "int32", "rune":
						return e.intc(int(int32(n)))
					case "int16":
						return e.intc(int(int16(n)))
					case "int8":
						return e.intc(int(int8(n)))
					case "uint8", "byte":
						return e.intc(int(uint8(n)))
					case "uint16":
						return e.intc(int(uint16(n)))
					case "uint32":
						return e.intc(int(uint32(n)))
					case "uint", "uint64":
						return e.constant(constant.MakeUint64(uint64(n)), nil)
					}
					return nil
				}
				if (math.Abs(f) < 1<<31 || math.Abs(f) < 1<<62 && (t == "int" || t == "int64")) && !strings.HasPrefix(t, "u") {
					return e.intc(int(f))
				}
			case t == "float64":
				if g := e.floatc(f); g != nil {
					return g
				}
				return a[0]
			case t == "float32":
				return e.floatc(float64(float32(f)))
			}
		}
	case name == "neg" && len(a) == 1:
		if a[0].op == OConst {
			return e.constant(constant.UnaryOp(13, a[0].cv, 0), nil)
		}
	case name == "byteat":
		return e.strIndexConst(a)
	case name == "substr" && len(a) == 3:
		s, ok := str(0)
		lo, ok1 := num(1)
		hi, ok2 := num(2)
		if ok && ok1 && ok2 {
			if lo < 0 || lo > hi || int(hi) > len(s) {
				return e.top("substr-out-of-range")
			}
			return e.str(s[lo:hi])
		}
	case name == "len" && len(a) == 1:
		if s, ok := str(0); ok {
			return e.intc(len(s))
		}
	case name == "str:int" && len(a) == 1:
		if n, ok := num(0); ok {
			return e.str(strconv.FormatInt(n, 10))
		}
	case name == "string" && len(a) == 1:
		if n, ok := num(0); ok {
			return e.str(string(rune(n)))
		}
		if a[0].op == OApp && a[0].name == "bytes" {
			return a[0].args[0]
		}
	case name == "strings.ToUpper":
		if s, ok := str(0); ok {
			return e.str(strings.ToUpper(s))
		}
	case name == "strings.ReplaceAll" && len(a) == 3:
		x, ok1 := str(0)
		y, ok2 := str(1)
		z, ok3 := str(2)
		if ok1 && ok2 && ok3 {
			return e.str(strings.ReplaceAll(x, y, z))
		}
	case name == "strings.Compare" && len(a) == 2:
		x, ok1 := str(0)
		y, ok2 := str(1)
		if ok1 && ok2 {
			return e.intc(strings.Compare(x, y))
		}
	case strings.HasPrefix(name, "strings."):
		all := true
		for i := range a {
			if a[i].op != OConst {
				all = false
			}
		}
		if all {
			if r := e.foldStrings(strings.TrimPrefix(name, "strings."), a); r != nil && r.op == OConst {
				return r
			}
		}
	case strings.HasPrefix(name, "as:") && len(a) == 1:
		if a[0].op == OIface && shortType(a[0].typ) == strings.TrimPrefix(name, "as:") {
			return a[0].args[0]
		}
	case strings.HasPrefix(name, "call:"+safecastPkg+"To") && len(a) == 2:
		to := strings.TrimPrefix(name, "call:"+safecastPkg+"To")
		out := strings.HasSuffix(to, "#out1")
		from := a[0]
		if s, ok := from.isStr(); ok && from.op == OConst {
			from = e.iface(types.Typ[types.String], e.str(s))
		}
		if r := e.foldCast(strings.TrimSuffix(to, "#out1"), from); r != nil {
			switch {
			case out && r.op == OConst:
				return r
			case !out && r.op == OConst:
				return e.Nil
			case !out:
				return e.appT(errorType, "wrap", e.app("casterr:"+to, from))
			}
		}
	case strings.HasPrefix(name, "cast:") && len(a) == 1:
		return e.foldCast(strings.TrimPrefix(name, "cast:"), a[0])
	case strings.HasPrefix(name, "castable:") && len(a) == 1:
		r := e.foldCast(strings.TrimPrefix(name, "castable:"), a[0])
		if r != nil {
			return e.boolc(r.op == OConst)
		}
	case strings.HasPrefix(name, "str:%") && len(a) == 1:
		if a[0].op == OIface || a[0].op == ONil {
			if s, ok := e.fmtConst(name[4:], a[0]); ok {
				return e.str(s)
			}
		}
	case strings.HasPrefix(name, "field.") && len(a) == 1 && a[0].op == OStruct:
		if i, err := strconv.Atoi(name[6:]); err == nil && i < len(a[0].args) {
			return a[0].args[i]
		}
	case strings.HasPrefix(name, "un:") && len(a) == 1:
	}
	return nil
}

func (e *E) strIndexConst(a []*T) *T {
	if s, ok := a[0].isStr(); ok {
		if n, ok := a[1].isInt(); ok {
			if n < 0 || int(n) >= len(s) {
				return e.top("index-out-of-range")
			}
			return e.intc(int(s[n]))
		}
	}
	return nil
}

func (e *E) fmtConst(verb string, v *T) (string, bool) {
	if v.op == ONil {
		if verb == "%v" {
			return "<nil>", true
		}
		return "", false
	}
	c := v.args[0]
	if c.op != OConst {
		return "", false
	}
	switch c.cv.Kind() {
	case constant.String:
		return fmt.Sprintf(verb, constant.StringVal(c.cv)), true
	case constant.Bool:
		return fmt.Sprintf(verb, constant.BoolVal(c.cv)), true
	case constant.Int:
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.cv)
			return fmt.Sprintf(verb, f), true
		}
		n, _ := constant.Int64Val(c.cv)
		return fmt.Sprintf(verb, n), true
	case constant.Float:
		f, _ := constant.Float64Val(c.cv)
		return fmt.Sprintf(verb, f), true
	}
	return "", false
}

// foldCast models the conversions of the safecast library on constants: a
// constant on success, a Top on failure, nil when unknown.
func (e *E) foldCast(to string, v *T) *T {
	if v.op != OIface {
		if v.op == ONil {
			return e.top("nil-cast")
		}
		return nil
	}
	c := v.args[0]
	if c.op != OConst {
		return nil
	}
	switch to {
	case "Float64":
		if f, ok := c.isFloat(); ok {
			return e.floatc(f)
		}
		if s, ok := c.isStr(); ok {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
				return e.top("cast")
			}
			return e.floatc(f)
		}
	case "String":
		if s, ok := c.isStr(); ok {
			return e.str(s)
		}
		if c.cv.Kind() == constant.Int {
			return e.str(c.cv.ExactString())
		}
		if c.cv.Kind() == constant.Bool {
			return e.str(strconv.FormatBool(constant.BoolVal(c.cv)))
		}
		if f, ok := c.isFloat(); ok {
			bits := 64
			if b, isB := v.typ.Underlying().(*types.Basic); isB && b.Kind() == types.Float32 {
				bits = 32
			}
			return e.str(strconv.FormatFloat(f, 'f', -1, bits))
		}
	case "Float32":
		f, ok := c.isFloat()
		if s, isS := c.isStr(); isS {
			v, err := strconv.ParseFloat(s, 64)
			f, ok = v, err == nil
		}
		if ok && float64(float32(f)) == f {
			return e.floatc(f)
		}
	case "Int8", "Int16", "Int32":
		bits, _ := strconv.Atoi(to[3:])
		n, ok := c.isInt()
		if s, isS := c.isStr(); isS {
			v, err := strconv.ParseInt(s, 10, 64)
			n, ok = v, err == nil
			if _, ferr := strconv.ParseFloat(s, 64); err != nil && ferr != nil {
				return e.top("cast")
			}
		}
		if !ok {
			return nil
		}
		if n < -1<<(bits-1) || n >= 1<<(bits-1) {
			return e.top("cast")
		}
		return e.intc(int(n))
	case "Uint", "Uint64", "Uint32", "Uint16", "Uint8":
		if s, ok := c.isStr(); ok {
			bits := 64
			if n, err := strconv.Atoi(to[4:]); err == nil {
				bits = n
			}
			u, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				if _, ferr := strconv.ParseFloat(s, 64); ferr == nil {
					return nil
				}
				return e.top("cast")
			}
			if bits < 64 && u >= 1<<bits {
				return e.top("cast")
			}
			return e.constant(constant.MakeUint64(u), nil)
		}
	case "Bool":
		if s, ok := c.isStr(); ok {
			b, err := strconv.ParseBool(s)
			if err != nil {
				return e.top("cast")
			}
			return e.boolc(b)
		}
	case "Int", "Int64":
		if n, ok := c.isInt(); ok {
			return e.intc(int(n))
		}
		if s, ok := c.isStr(); ok {
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				if _, ferr := strconv.ParseFloat(s, 64); ferr == nil {
					return nil // by way of a float
				}
				return e.top("cast")
			}
			return e.intc(int(n))
		}
	}
	return nil
}

// freeTerms lists the inputs a condition depends on. An application of a method
// to an opaque input is itself an input.
func (e *E) freeTerms(t *T) []*T {
	seen := map[int]bool{}
	var out []*T
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if e.isFree(x) {
			out = append(out, x)
			return
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (e *E) isFree(x *T) bool {
	switch x.op {
	case OSym:
		return !strings.HasPrefix(x.name, "mu#") && !strings.HasPrefix(x.name, "&") && !strings.HasPrefix(x.name, "builtin:") && x.name != "+Inf" && x.name != "-Inf" && x.name != "deleted"
	case OApp:
		if strings.HasPrefix(x.name, "call:") && len(x.args) > 0 && !strings.ContainsAny(x.name[5:], "./") {
			return e.isFree(x.args[0]) && (x.args[0].op == OSym || x.args[0].op == OApp)
		}
		if strings.HasPrefix(x.name, "fresh:") {
			return true
		}
	}
	return false
}

func (e *E) termType(t *T) types.Type {
	if r, ok := e.rtypes[t.id]; ok && r != nil {
		return r
	}
	return t.typ
}

// pool returns candidate values for a free term.
func (e *E) pool(t *T, consts map[string]bool, ints map[int64]bool) []*T {
	ty := e.termType(t)
	if ty == nil {
		return nil
	}
	strs := []string{"a", "b", "", "A", "'", "x'y", "''", "\"", "`", "a b", "a.b", "a,b", "1", "-1", "0", "1.5", "x'", "'x", "'x'", "(", ")", "*", "?", "$1", "$2", "%", "%s", "b,c", "ab", "\\", "NULL"}
	var ks []string
	for k := range consts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			var out []*T
			for _, s := range strs {
				out = append(out, e.str(s))
			}
			for _, k := range ks {
				out = append(out, e.str(k))
				if l := strings.ToLower(k); l != k {
					out = append(out, e.str(l))
				}
				out = append(out, e.str(k+"x"), e.str("x"+k), e.str("x"+k+"y"))
			}
			return out
		case u.Info()&types.IsBoolean != 0:
			return []*T{e.True, e.False}
		case u.Info()&types.IsInteger != 0:
			vs := map[int64]bool{0: true, 1: true, 2: true, 3: true, -1: true, -2: true, 10: true, 65: true, 256: true, 257: true}
			for k := range ints {
				vs[k], vs[k+1], vs[k-1] = true, true, true
			}
			var l []int64
			for k := range vs {
				if k < 0 && u.Info()&types.IsUnsigned != 0 {
					continue
				}
				l = append(l, k)
			}
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
			var out []*T
			for _, k := range l {
				out = append(out, e.intc(int(k)))
			}
			return out
		case u.Info()&types.IsFloat != 0:
			var out []*T
			for _, f := range []float64{0, 1, -1, 0.5, -0.5, 2, -2, 3, 7.25, -7.75, 100, 1e300, -1e300} {
				out = append(out, e.floatc(f))
			}
			return out
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			var out []*T
			for _, s := range []string{"a", "b", "", "x'y", "1", "a,b"} {
				out = append(out, e.iface(types.Typ[types.String], e.str(s)))
			}
			for _, n := range []int{0, 1, 2, -1, 7, -3} {
				out = append(out, e.iface(types.Typ[types.Int], e.intc(n)))
			}
			for _, f := range []float64{0.5, -0.5, 2.5, -7.75} {
				out = append(out, e.iface(types.Typ[types.Float64], e.floatc(f)))
			}
			out = append(out, e.Nil, e.iface(types.Typ[types.Bool], e.True))
			return out
		}
	}
	// an opaque object: not nil, different from every other
	return []*T{e.mk(&T{op: OAlloc, name: "obj:" + strconv.Itoa(t.id)})}
}

// constsOf collects the constants a condition mentions.
func constsOf(t *T) (map[string]bool, map[int64]bool) {
	ss, is := map[string]bool{}, map[int64]bool{}
	seen := map[int]bool{}
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if s, ok := x.isStr(); ok && len(s) < 40 {
			ss[s] = true
		}
		if n, ok := x.isInt(); ok && n > -1<<40 && n < 1<<40 {
			is[n] = true
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
	for k := range ss {
		if len(ss) <= 40 {
			break
		}
		delete(ss, k)
	}
	return ss, is
}

// confirm searches constants for the inputs of v that make it true.
func (e *E) confirm(v *T) (string, bool) {
	if v == e.False {
		return "", false
	}
	if v == e.True {
		return "for every input", true
	}
	if v.size > 200000 {
		return "", false
	}
	free := e.freeTerms(v)
	if len(free) == 0 {
		return "", false
	}
	cs, is := constsOf(v)
	pools := make([][]*T, len(free))
	total := 1
	for i, f := range free {
		pools[i] = e.pool(f, cs, is)
		if len(pools[i]) == 0 {
			return "", false
		}
		if total < 1<<30 {
			total *= len(pools[i])
		}
	}
	show := func(m map[int]*T) string {
		var out []string
		for _, f := range free {
			s := m[f.id]
			if s.op == OAlloc {
				continue
			}
			out = append(out, clip(f)+" = "+clip(s))
		}
		return strings.Join(out, ", ")
	}
	test := func(m map[int]*T) bool { return e.inst(v, m) == e.True }
	// staged: decide inputs one after the other, keeping the condition possible
	budget := 6000
	if total <= budget {
		m := map[int]*T{}
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(free) {
				return test(m)
			}
			for _, c := range pools[i] {
				m[free[i].id] = c
				if rec(i + 1) {
					return true
				}
			}
			return false
		}
		if rec(0) {
			return show(m), true
		}
		return "", false
	}
	// depth-first with pruning: instantiate one input at a time
	m := map[int]*T{}
	n := 0
	var rec func(cur *T, i int) bool
	rec = func(cur *T, i int) bool {
		if cur == e.True {
			for j := i; j < len(free); j++ {
				m[free[j].id] = pools[j][0]
			}
			return true
		}
		if cur == e.False || i == len(free) || n > budget {
			return false
		}
		for _, c := range pools[i] {
			n++
			m[free[i].id] = c
			if rec(e.inst(cur, map[int]*T{free[i].id: c}), i+1) {
				return true
			}
		}
		return false
	}
	if rec(v, 0) {
		return show(m), true
	}
	// pseudo-random sampling
	seed := uint32(12345)
	next := func(k int) int {
		seed = seed*1664525 + 1013904223
		return int(seed>>8) % k
	}
	for k := 0; k < 3000; k++ {
		for i, f := range free {
			m[f.id] = pools[i][next(len(pools[i]))]
		}
		if test(m) {
			return show(m), true
		}
	}
	return "", false
}

// never is the obligation that v is impossible.
func (r *Run) never(key, where string, v *T, format string, a ...any) {
	e := r.e
	v = e.sat(v)
	if v == e.False {
		r.ok("%s", key)
		return
	}
	if w, ok := e.confirm(v); ok {
		r.bad(key, where, "%s: %s", fmt.Sprintf(format, a...), w)
		return
	}
	r.unknown("%s: %s", key, clip(v))
}
