package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// This file compares an observed value (what the code computes) with an
// expected one (what the property says), leaf by leaf, under the conditions
// both depend on. A difference is definite only when every ingredient of it is
// interpreted; everything else is left undecided.

// acc builds the parse-tree term node.name(), typed like the generated code.
func (e *E) acc(node *T, name string) *T {
	t := e.app("g:"+name, node)
	if _, ok := e.rtypes[t.id]; ok {
		return t
	}
	rule := e.prog.ruleOf(e, node)
	if rule == "" {
		return t
	}
	pk := e.prog.ssaPkgs[antlrPkg]
	if pk == nil {
		return t
	}
	if o := pk.Pkg.Scope().Lookup("I" + strings.ToUpper(rule[:1]) + rule[1:] + "Context"); o != nil {
		if m, _, _ := types.LookupFieldOrMethod(o.Type(), true, pk.Pkg, name); m != nil {
			if f, ok := m.(*types.Func); ok {
				sig := f.Type().(*types.Signature)
				if sig.Results().Len() == 1 {
					e.noteType(t, sig.Results().At(0).Type())
				}
			}
		}
	}
	return t
}

// path walks accessors separated by dots; "X[]" enters the generic element.
func (e *E) path(node *T, p string) *T {
	for _, s := range strings.Split(p, ".") {
		if s == "" {
			continue
		}
		if strings.HasSuffix(s, "[]") {
			node = e.elemVar(e.acc(node, strings.TrimSuffix(s, "[]")))
			continue
		}
		node = e.acc(node, s)
	}
	return node
}

func (e *E) text(node *T) *T {
	r := e.app("GetText", node)
	e.noteType(r, types.Typ[types.String])
	return r
}

func (e *E) present(node *T) *T { return e.not(e.eq(node, e.Nil)) }

// mapSeq is the sequence of body for the elements of d that satisfy g.
func (e *E) mapSeq(d, g, body *T) *T {
	return e.seq(e.loopPart(e.True, d, e.seq(e.elem(g, body))))
}

// spec markers
func (e *E) specFrom(node *T) *T { return e.app("spec:from", node) } // some function of the text of node only
func (e *E) specAny() *T         { return e.app("spec:any") }
func (e *E) specFold(t *T) *T    { return e.app("spec:fold", t) } // equal up to letter case

const unquoteSet = "'\"`()[] \t\n;"

func onlyUnquote(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune(unquoteSet, c) {
			return false
		}
	}
	return s != ""
}

// normText strips transformations that only remove quotes from names.
func (e *E) normText(t *T) *T {
	for {
		switch {
		case t.op == OApp && (t.name == "strings.Trim" || t.name == "strings.TrimLeft" || t.name == "strings.TrimRight" || t.name == "strings.TrimPrefix" || t.name == "strings.TrimSuffix") && len(t.args) == 2:
			if s, ok := t.args[1].isStr(); ok && onlyUnquote(s) {
				t = t.args[0]
				continue
			}
		case t.op == OApp && t.name == "strings.TrimSpace":
			t = t.args[0]
			continue
		case t.op == OApp && t.name == "strings.ReplaceAll" && len(t.args) == 3:
			if e.quoteLeaves(t.args[1], false) && e.quoteLeaves(t.args[2], true) {
				t = t.args[0]
				continue
			}
		case t.op == OApp && t.name == "join" && len(t.args) == 2 && t.args[1].op == OSeq && len(t.args[1].args) == 1 && t.args[1].args[0].op == OElem:
			// join of one element that is present when not empty
			p := t.args[1].args[0]
			if p.args[0] == e.True || e.eq(p.args[1], e.str("")) == e.not(p.args[0]) {
				t = p.args[1]
				continue
			}
		case t.op == OCat && len(t.args) == 1:
			t = t.args[0]
			continue
		case t.op == OIface && isStringType(t.typ):
			t = t.args[0]
			continue
		case t.op == OApp && t.name == "substr" && len(t.args) >= 2:
			t = t.args[0]
			continue
		}
		return t
	}
}

// quoteLeaves: every possible value consists of quotes only.
func (e *E) quoteLeaves(t *T, empty bool) bool {
	for _, l := range e.leaves(t) {
		if l.v.op == OCat {
			for _, a := range l.v.args {
				if !e.quoteLeaves(a, empty) {
					return false
				}
			}
			continue
		}
		s, ok := l.v.isStr()
		if !ok || !(onlyUnquote(s) || empty && s == "") {
			return false
		}
	}
	return true
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

type diffT struct {
	definite bool
	msg      string
}

type matcher struct {
	r    *Run
	e    *E
	out  []diffT
	spec func(atom *T) int // specialisation of input: 1, 0 or -1
	doms []*T              // lists whose generic element is in scope
	// consts: only differences between constants count
	consts bool
}

// sat normalises a condition under what is known of the elements in scope.
func (m *matcher) sat(g *T) *T {
	e := m.e
	g = e.sat(g)
	for _, d := range m.doms {
		if g == e.False {
			return g
		}
		g = e.sat(e.and(g, e.instFacts(g, d)))
	}
	return g
}

func (m *matcher) add(def bool, f string, a ...any) {
	if len(m.out) < 8 {
		m.out = append(m.out, diffT{def, fmt.Sprintf(f, a...)})
	}
}

// specialise fixes the atoms decided by m.spec.
func (m *matcher) specialise(t *T) *T {
	if m.spec == nil {
		return t
	}
	e := m.e
	memo := map[int]*T{}
	var rec func(x *T) *T
	rec = func(x *T) *T {
		if x.op != OIte {
			if len(x.args) == 0 || x.op == OAlloc {
				return x
			}
			if r, ok := memo[x.id]; ok {
				return r
			}
			r := x
			ch := false
			as := make([]*T, len(x.args))
			for i, a := range x.args {
				as[i] = rec(a)
				ch = ch || as[i] != a
			}
			if ch && x.op != OEq && x.op != OLt && x.op != OTypeIs {
				r = e.rebuild(x, as)
			}
			memo[x.id] = r
			return r
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		var r *T
		switch m.spec(x.args[0]) {
		case 1:
			r = rec(x.args[1])
		case 0:
			r = rec(x.args[2])
		default:
			at := x.args[0]
			if at.op == OApp && at.name == "any" {
				b := rec(at.args[1])
				r = e.ite(e.anyOf(at.args[0], b), rec(x.args[1]), rec(x.args[2]))
			} else {
				r = e.ite(e.atom(at), rec(x.args[1]), rec(x.args[2]))
			}
		}
		memo[x.id] = r
		return r
	}
	return rec(t)
}

// interpreted reports whether an atom is fully understood.
func (e *E) interpreted(a *T) bool {
	switch a.op {
	case OEq:
		x, y := a.args[0], a.args[1]
		if y.op == ONil {
			if x.op == OApp && strings.HasPrefix(x.name, "call:") && strings.Contains(x.name, "safecast.To") && len(x.args) > 0 && !e.opaqueTerm(x.args[0]) {
				return true // conversion of a text, possible or not
			}
			return e.prog.isGrammarTerm(x) && !e.opaqueTerm(x)
		}
		if _, ok := y.isStr(); ok {
			return !e.opaqueTerm(x)
		}
		return !e.opaqueTerm(x) && !e.opaqueTerm(y)
	case OLt:
		return !e.opaqueTerm(a.args[0]) && !e.opaqueTerm(a.args[1])
	case OApp:
		switch a.name {
		case "any":
			return e.interpretedCond(a.args[1])
		case "syntaxerror":
			return true
		}
		if strings.HasPrefix(a.name, "strings.") || a.name == "contains" {
			return !e.opaqueTerm(a)
		}
	}
	return false
}

func isConversion(a *T) bool {
	return a.op == OEq && a.args[1].op == ONil && a.args[0].op == OApp && strings.HasPrefix(a.args[0].name, "call:") && strings.Contains(a.args[0].name, "safecast.To")
}

// converted restricts a condition to the inputs whose conversions succeed.
func (e *E) converted(g *T) *T {
	seen := map[int]bool{}
	var rec func(x *T)
	r := g
	rec = func(x *T) {
		if x.op != OIte || seen[x.id] {
			return
		}
		seen[x.id] = true
		if isConversion(x.args[0]) {
			r = e.and(r, e.atom(x.args[0]))
		}
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(g)
	return e.sat(r)
}

func (e *E) interpretedCond(t *T) bool {
	ok := true
	seen := map[int]bool{}
	var rec func(x *T)
	rec = func(x *T) {
		if !ok || x.op != OIte || seen[x.id] {
			return
		}
		seen[x.id] = true
		if !e.interpreted(x.args[0]) {
			ok = false
		}
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(t)
	return ok
}

var clearApps = map[string]bool{"GetText": true, "elem": true, "idx": true, "index": true, "len": true, "join": true, "countbefore": true, "count": true, "byteat": true,
	"strings.Trim": true, "strings.ToUpper": true, "strings.ToLower": true, "strings.TrimSpace": true, "strings.ReplaceAll": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true,
	"first": true, "last": true, "any": true, "empty": true, "nonempty": true, "contains": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.EqualFold": true, "conv:": true}

// opaqueTerm reports whether a term uses vocabulary the comparison cannot
// interpret.
func (e *E) opaqueTerm(t *T) bool {
	if r, ok := e.opqMemo[t.id]; ok {
		return r
	}
	r := false
	switch t.op {
	case OTop, OAlloc, OFieldAddr, OIndexAddr, OClosure, OFill, OUpd:
		r = true
	case OSym:
		r = strings.HasPrefix(t.name, "mu#") || t.name == "&out"
	case OApp:
		r = !(clearApps[t.name] || strings.HasPrefix(t.name, "g:") || strings.HasPrefix(t.name, "tree:") || strings.HasPrefix(t.name, "antlr:") || strings.HasPrefix(t.name, "spec:") || strings.HasPrefix(t.name, "in:"))
	}
	if !r {
		for _, a := range t.args {
			if e.opaqueTerm(a) {
				r = true
				break
			}
		}
	}
	e.opqMemo[t.id] = r
	return r
}

// definiteCase reports whether t has a satisfying path of interpreted atoms.
func (e *E) definiteCase(t *T) bool {
	memo := map[int]bool{}
	dbg := os.Getenv("VERIF_DEBUG") != ""
	var rec func(x *T) bool
	rec = func(x *T) bool {
		if x == e.True {
			return true
		}
		if x.op != OIte {
			return false
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		r := false
		if e.interpreted(x.args[0]) {
			r = rec(x.args[1]) || rec(x.args[2])
		} else if a := x.args[0]; a.op == OApp && a.name == "any" && rec(x.args[2]) {
			// no other element of the list is affected: its facts about the
			// generic element are part of the condition
			r = true
		} else {
			// an opaque atom both of whose outcomes lead to the case is harmless
			r = rec(e.and(x.args[1], x.args[2]))
			if dbg && !r {
				fmt.Println("OPAQUE ATOM", clip(x.args[0]))
			}
		}
		memo[x.id] = r
		return r
	}
	return rec(t)
}

// sources returns the parse-tree nodes whose text a term uses.
func sources(t *T) map[int]*T {
	out := map[int]*T{}
	seen := map[int]bool{}
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if x.op == OApp && x.name == "GetText" {
			out[x.args[0].id] = x.args[0]
			return
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
	return out
}

// textRel compares the texts of two parse-tree nodes: 1 equal, 0 different
// for some input, -1 unknown.
func (e *E) textRel(a, b *T) int {
	if a == b {
		return 1
	}
	under := func(anc, x *T) (int, bool) {
		rel := 1
		for d := 0; d < 6 && x.op == OApp && len(x.args) > 0; d++ {
			if x == anc {
				return rel, true
			}
			if !strings.HasPrefix(x.name, "g:") || len(x.args) != 1 {
				return 0, false
			}
			p := x.args[0]
			rule := e.prog.ruleOf(e, p)
			ac, ok := e.prog.gram.accessor(rule, x.name[2:])
			if !ok || e.prog.gram.rules[rule] == nil {
				return -1, p == anc
			}
			if e.prog.gram.hasOthers(e.prog.gram.rules[rule], ac) {
				rel = 0
			}
			x = p
		}
		return 0, false
	}
	if r, ok := under(a, b); ok {
		return r
	}
	if r, ok := under(b, a); ok {
		return r
	}
	return 0
}

// hasOthers: can something else stand next to the selected child?
func (g *Grammar) hasOthers(n *gnode, a accessor) bool {
	// bit 0: selected, bit 1: others
	var rec func(n *gnode, in bool) map[int]bool
	join := func(x, y map[int]bool) map[int]bool {
		r := map[int]bool{}
		for p := range x {
			for q := range y {
				r[p|q] = true
			}
		}
		return r
	}
	rec = func(n *gnode, in bool) map[int]bool {
		if a.label != "" && n.label == a.label {
			in = true
		}
		switch n.kind {
		case gRef:
			if in || a.ref != "" && n.name == a.ref {
				return map[int]bool{1: true}
			}
			return map[int]bool{2: true}
		case gSeq:
			r := map[int]bool{0: true}
			for _, k := range n.kids {
				r = join(r, rec(k, in))
			}
			return r
		case gAlt:
			r := map[int]bool{}
			for _, k := range n.kids {
				for m := range rec(k, in) {
					r[m] = true
				}
			}
			return r
		case gOpt, gStar, gPlus:
			r := rec(n.kids[0], in)
			if n.kind != gOpt {
				for m := range join(r, r) {
					r[m] = true
				}
			}
			if n.kind != gPlus {
				r[0] = true
			}
			return r
		}
		return map[int]bool{0: true}
	}
	return rec(n, false)[3]
}

func seqLike(t *T) bool { return t.op == OSeq }

// diff compares obs with exp under pc.
func (m *matcher) diff(obs, exp, pc *T) {
	e := m.e
	if pc == e.False {
		return
	}
	obs, exp = e.restrict(obs, pc), e.restrict(exp, pc)
	if obs == exp {
		return
	}
	for _, el := range e.leaves(exp) {
		pe := m.sat(e.and(pc, el.g))
		if pe == e.False {
			continue
		}
		if el.v.op == OApp && el.v.name == "spec:any" {
			continue
		}
		for _, ol := range e.leaves(e.restrict(obs, pe)) {
			g := e.and(pe, ol.g)
			if g != e.False {
				g = m.sat(g)
			}
			if g == e.False {
				continue
			}
			m.val(ol.v, el.v, g)
		}
	}
}

func (m *matcher) val(a, b, g *T) {
	e := m.e
	if a == b {
		return
	}
	if a.op == OIface && b.op != OIface {
		if _, ok := a.typ.Underlying().(*types.Pointer); !ok {
			a = a.args[0]
			if a.op == OIte {
				m.diff(a, b, g)
				return
			}
			if a == b {
				return
			}
		}
	}
	if a.op == OSeq || b.op == OSeq {
		if a.op == ONil {
			a = e.seq()
		}
		if a.op == OSeq && b.op == OSeq {
			m.seqs(a, b, g)
			return
		}
		m.add(false, "%s is not a list the analysis can follow", clip(a))
		return
	}
	if m.consts {
		m.constVal(a, b, g)
		return
	}
	if b.op == OApp && b.name == "spec:from" {
		want := b.args[0]
		src := sources(a)
		if len(src) == 0 {
			if a.op == OConst || a.op == ONil || a.op == OSym {
				// a fallback value: fine when it is guarded by a failed conversion
				if g = e.converted(g); g != e.False && e.definiteCase(g) {
					m.add(true, "is %s instead of being taken from %s, when %s", clip(a), clip(want), e.witness(g))
				}
				return
			}
			m.add(false, "%s", clip(a))
			return
		}
		for _, s := range src {
			if e.textRel(s, want) == 0 {
				m.add(e.definiteCase(g), "is taken from %s instead of %s, when %s", clip(s), clip(want), e.witness(g))
				return
			}
		}
		return
	}
	if b.op == OApp && b.name == "spec:not" {
		if a == b.args[0] {
			m.add(e.definiteCase(g), "is %s, when %s", clip(a), e.witness(g))
		}
		return
	}
	if b.op == OApp && b.name == "spec:dep" {
		// some function of the listed nodes: independence is definite
		if !mentions(a, b.args[0]) && !mentions(g, b.args[0]) && !hasTop(a) && !e.opaqueTerm(a) {
			m.add(e.definiteCase(g), "is %s, which does not depend on %s, when %s", clip(a), clip(b.args[0]), e.witness(g))
		}
		return
	}
	fold := false
	if b.op == OApp && b.name == "spec:fold" {
		fold = true
		b = b.args[0]
	}
	na, nb := e.normText(a), e.normText(b)
	if fold {
		for na.op == OApp && (na.name == "strings.ToUpper" || na.name == "strings.ToLower") {
			na = e.normText(na.args[0])
		}
	}
	if na == nb {
		return
	}
	if na.op == OIte || nb.op == OIte {
		m.diff(na, nb, g)
		return
	}
	if na.op == OSym && strings.HasPrefix(na.name, "nil.") {
		m.add(e.definiteCase(g), "has no value (nil) where %s is expected, when %s", clip(b), e.witness(g))
		return
	}
	if na.op == OApp && nb.op == OApp && na.name == "GetText" && nb.name == "GetText" {
		switch e.textRel(na.args[0], nb.args[0]) {
		case 1:
			return
		case 0:
			m.add(e.definiteCase(g) && !e.opaqueTerm(na), "is the text of %s instead of %s, when %s", clip(na.args[0]), clip(nb.args[0]), e.witness(g))
			return
		}
		m.add(false, "text of %s against %s", clip(na), clip(nb))
		return
	}
	if na.op == OApp && na.name == "index" && nb.op == OApp && nb.name == "index" {
		// same list, different position
		if m.sameList(na.args[0], nb.args[0]) {
			if na.args[1] == nb.args[1] {
				return
			}
			m.add(e.definiteCase(g) && !e.opaqueTerm(na.args[1]), "is element %s instead of element %s of %s", clip(na.args[1]), clip(nb.args[1]), clip(nb.args[0]))
			return
		}
	}
	if na.op == OConst && nb.op == OApp && nb.name == "GetText" {
		// where the code found the unquoted text to be that constant, they agree
		g = e.withoutTextEq(g, nb, na)
		if g == e.False {
			return
		}
	}
	if e.opaqueTerm(na) || e.opaqueTerm(nb) {
		// a missing source makes the difference definite
		have := sources(na)
		for _, s := range sources(nb) {
			hit := false
			for _, h := range have {
				if e.textRel(h, s) != 0 || related(h, s) {
					hit = true
				}
			}
			if !hit && !mentions(na, s) && !hasTop(na) {
				m.add(e.definiteCase(g), "is %s, which does not depend on %s, when %s", clip(na), clip(s), e.witness(g))
				return
			}
		}
		m.add(false, "%s against %s", clip(na), clip(nb))
		return
	}
	m.add(e.definiteCase(g), "is %s instead of %s, when %s", clip(na), clip(nb), e.witness(g))
}

func related(a, b *T) bool { return mentions(a, b) || mentions(b, a) }

func hasTop(t *T) bool {
	seen := map[int]bool{}
	var rec func(x *T) bool
	rec = func(x *T) bool {
		if seen[x.id] {
			return false
		}
		seen[x.id] = true
		if x.op == OTop || x.op == OAlloc || x.op == OSym && strings.HasPrefix(x.name, "mu#") {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// sameList compares two lists up to quoting of their elements.
func (m *matcher) sameList(a, b *T) bool {
	if a == b {
		return true
	}
	if a.op != OSeq || b.op != OSeq {
		return false
	}
	k := &matcher{r: m.r, e: m.e, spec: m.spec}
	k.seqs(a, b, m.e.True)
	return len(k.out) == 0
}

// part is a piece of a sequence.
type part struct {
	dom  *T // nil for a single element
	g, v *T // guard and value (or body sequence when dom != nil)
	op   Op
}

// pieces merges neighbouring exclusive elements of a sequence.
func (m *matcher) pieces(s, pc *T) []part {
	e := m.e
	var out []part
	for _, p := range s.args {
		g := e.restrict(p.args[0], pc)
		if g == e.False || e.and(pc, p.args[0]) == e.False {
			continue
		}
		switch p.op {
		case OElem:
			if n := len(out); n > 0 && out[n-1].op == OElem && m.sat(e.and(pc, e.and(out[n-1].g, g))) == e.False {
				out[n-1].v = e.ite(out[n-1].g, out[n-1].v, p.args[1])
				out[n-1].g = e.or(out[n-1].g, g)
				continue
			}
			out = append(out, part{nil, g, p.args[1], OElem})
		case OLoop:
			if n := len(out); n > 0 && out[n-1].op == OLoop && out[n-1].dom == p.args[1] && m.sat(e.and(pc, e.and(out[n-1].g, g))) == e.False {
				a := e.guardParts(out[n-1].g, out[n-1].v.args)
				b := e.guardParts(g, p.args[2].args)
				out[n-1].v = e.seq(append(append([]*T{}, a...), b...)...)
				out[n-1].g = e.or(out[n-1].g, g)
				continue
			}
			out = append(out, part{p.args[1], g, p.args[2], OLoop})
		case OSpread:
			out = append(out, part{p.args[1], g, e.seq(e.elem(e.True, e.elemVar(p.args[1]))), OLoop})
		default:
			out = append(out, part{nil, g, p, p.op})
		}
	}
	return out
}

func (m *matcher) seqs(a, b, pc *T) {
	e := m.e
	pa, pb := m.pieces(a, pc), m.pieces(b, pc)
	for _, p := range pa {
		if p.op != OElem && p.op != OLoop {
			m.add(false, "list with parts the analysis cannot follow: %s", clip(a))
			return
		}
	}
	if len(pa)+len(pb) <= 10 && len(pa)+len(pb) > 0 && onlyElems(pa) && onlyElems(pb) {
		m.elems(pa, pb, pc)
		return
	}
	// parts that are there in some cases only are compared case by case
	if len(pa) != len(pb) && len(pa) > 0 && len(pb) > 0 && len(pa)+len(pb) <= 8 {
		for side, l := range [][]part{pa, pb} {
			for i, p := range l {
				if p.g == e.True || p.op != OElem && p.op != OLoop {
					continue
				}
				yes, no := m.sat(e.and(pc, p.g)), m.sat(e.and(pc, e.not(p.g)))
				with := append(append(append([]part{}, l[:i]...), part{p.dom, e.True, p.v, p.op}), l[i+1:]...)
				without := append(append([]part{}, l[:i]...), l[i+1:]...)
				for k, c := range []*T{yes, no} {
					if c == e.False {
						continue
					}
					n := [][]part{with, without}[k]
					na, nb := n, pb
					if side == 1 {
						na, nb = pa, n
					}
					m.seqs(e.seqOfParts(m.possible(na, c)), e.seqOfParts(m.possible(nb, c)), c)
				}
				return
			}
		}
	}
	// several loops over the same domain whose elements exclude each other per
	// iteration stay in order only within one loop
	if len(pa) != len(pb) && m.consts {
		return
	}
	if len(pa) != len(pb) {
		// a loop over the expected domain next to something else
		if len(pa) == 0 {
			for _, p := range pb {
				if p.op == OElem {
					g := m.sat(e.and(pc, p.g))
					if g != e.False {
						m.add(e.definiteCase(g), "misses the element %s, when %s", clip(p.v), e.witness(g))
					}
				} else {
					d := m.someElem(p)
					g := m.sat(e.and(pc, d))
					if g != e.False {
						m.add(e.definiteCase(g), "is empty although %s lists elements, when %s", clip(p.dom), e.witness(g))
					}
				}
			}
			return
		}
		if len(pb) == 0 {
			for _, p := range pa {
				g := m.sat(e.and(pc, p.g))
				if p.op == OLoop {
					g = m.sat(e.and(pc, m.someElem(p)))
				}
				if g != e.False {
					m.add(e.definiteCase(g) && !e.opaqueTerm(p.v), "has elements nothing in the query stands for, when %s", e.witness(g))
				}
			}
			return
		}
		op := false
		for _, p := range pa {
			if p.dom != nil && e.opaqueTerm(p.dom) || e.opaqueTerm(p.v) {
				op = true
			}
		}
		if !op && len(pa) > len(pb) {
			g := m.sat(e.and(pc, pa[len(pa)-1].g))
			m.add(g != e.False && e.definiteCase(g), "has %d parts instead of %d: %s", len(pa), len(pb), clip(a))
			return
		}
		m.add(false, "list shape %s against %s", clip(a), clip(b))
		return
	}
	for i := range pa {
		x, y := pa[i], pb[i]
		if x.op != y.op {
			m.add(false, "list shape %s against %s", clip(a), clip(b))
			return
		}
		if x.op == OElem {
			m.guards(x.g, y.g, pc, clip(y.v))
			m.diff(x.v, y.v, m.sat(e.and(pc, e.and(x.g, y.g))))
			continue
		}
		if x.dom != y.dom {
			if x.dom.op == OApp && y.dom.op == OApp && (x.dom.name == "reverse" || x.dom.name == "sub" || x.dom.name == "upto") && len(x.dom.args) > 0 && x.dom.args[0] == y.dom && len(pa) == 1 {
				m.add(e.definiteCase(m.sat(pc)), "covers %s instead of all of %s in order", clip(x.dom), clip(y.dom))
				continue
			}
			if d := x.dom; d.op == OApp && d.name == "sub" && len(d.args) == 3 && len(pa) == 1 && d.args[0].op == OSeq && len(d.args[0].args) == 1 && d.args[0].args[0].op == OSpread && d.args[0].args[0].args[0] == e.True && d.args[0].args[0].args[1] == y.dom {
				// a fixed part of the list
				_, ok1 := d.args[1].isInt()
				_, ok2 := d.args[2].isInt()
				g := m.sat(e.and(e.and(pc, x.g), e.lt(d.args[2], e.lenOf(y.dom))))
				if ok1 && ok2 && g != e.False {
					m.add(e.definiteCase(g), "covers %s instead of all of %s in order, when %s", clip(x.dom), clip(y.dom), e.witness(g))
					continue
				}
			}
			if e.prog.isGrammarList(e, x.dom) && e.prog.isGrammarList(e, y.dom) {
				g := m.sat(e.and(pc, x.g))
				m.add(e.definiteCase(g), "follows %s instead of %s", clip(x.dom), clip(y.dom))
				continue
			}
			m.add(false, "list over %s against %s", clip(x.dom), clip(y.dom))
			continue
		}
		in := e.and(pc, e.instFacts(pc, x.dom))
		// the guards of the loops only matter when there is an element
		ba := e.seq(e.guardParts(x.g, x.v.args)...)
		bb := e.seq(e.guardParts(y.g, y.v.args)...)
		ne := e.not(e.emptyDom(x.dom))
		m.doms = append(m.doms, x.dom)
		m.seqs(ba, bb, e.and(in, ne))
		m.doms = m.doms[:len(m.doms)-1]
	}
}

// possible drops the parts that are not there under pc.
func (m *matcher) possible(l []part, pc *T) []part {
	var out []part
	for _, p := range l {
		if m.sat(m.e.and(pc, p.g)) == m.e.False {
			continue
		}
		if m.sat(m.e.and(pc, m.e.not(p.g))) == m.e.False {
			p.g = m.e.True
		}
		out = append(out, p)
	}
	return out
}

func (e *E) seqOfParts(l []part) *T {
	var ps []*T
	for _, p := range l {
		if p.op == OLoop {
			ps = append(ps, e.loopPart(p.g, p.dom, p.v))
		} else {
			ps = append(ps, e.elem(p.g, p.v))
		}
	}
	return e.seq(ps...)
}

func onlyElems(ps []part) bool {
	for _, p := range ps {
		if p.op != OElem {
			return false
		}
	}
	return true
}

// elems compares lists of guarded single elements, case by case.
func (m *matcher) elems(pa, pb []part, pc *T) {
	e := m.e
	if pc == e.False {
		return
	}
	for _, side := range []int{0, 1} {
		l := pa
		if side == 1 {
			l = pb
		}
		if len(l) == 0 || l[0].g == e.True {
			continue
		}
		yes, no := m.sat(e.and(pc, l[0].g)), m.sat(e.and(pc, e.not(l[0].g)))
		head := append([]part{{nil, e.True, l[0].v, OElem}}, l[1:]...)
		if side == 0 {
			if yes != e.False {
				m.elems(head, pb, yes)
			}
			if no != e.False {
				m.elems(l[1:], pb, no)
			}
		} else {
			if yes != e.False {
				m.elems(pa, head, yes)
			}
			if no != e.False {
				m.elems(pa, l[1:], no)
			}
		}
		return
	}
	switch {
	case len(pa) == 0 && len(pb) == 0:
	case len(pa) == 0:
		m.add(e.definiteCase(pc), "misses the element %s, when %s", clip(pb[0].v), e.witness(pc))
	case len(pb) == 0:
		m.add(e.definiteCase(pc) && !e.opaqueTerm(pa[0].v), "has an element nothing in the query stands for, when %s", e.witness(pc))
	default:
		m.diff(pa[0].v, pb[0].v, pc)
		m.elems(pa[1:], pb[1:], pc)
	}
}

// someElem is the condition under which a loop part yields an element.
func (m *matcher) someElem(p part) *T {
	e := m.e
	g := e.False
	for _, x := range p.v.args {
		g = e.or(g, x.args[0])
	}
	return e.and(p.g, e.and(g, e.not(e.emptyDom(p.dom))))
}

func (m *matcher) guards(a, b, pc *T, what string) {
	e := m.e
	lost := m.sat(e.and(pc, e.and(b, e.not(a))))
	if lost != e.False {
		m.add(e.definiteCase(lost), "misses the element %s, when %s", what, e.witness(lost))
	}
	extra := m.sat(e.and(pc, e.and(a, e.not(b))))
	if extra != e.False {
		m.add(e.definiteCase(extra), "has an element nothing in the query stands for, when %s", e.witness(extra))
	}
}

func (p *Program) isGrammarList(e *E, d *T) bool {
	return d.op == OApp && strings.HasPrefix(d.name, "g:") && len(d.args) == 1 && p.ruleOf(e, d.args[0]) != ""
}

// same is the obligation that obs equals exp under pc.
func (r *Run) same(key, where string, obs, exp, pc *T, spec func(*T) int) {
	m := &matcher{r: r, e: r.e, spec: spec}
	o, x, c := m.specialise(obs), m.specialise(exp), m.specialise(pc)
	m.diff(o, x, c)
	var unk []string
	for _, d := range m.out {
		if d.definite {
			r.bad(key, where, "%s", d.msg)
			return
		}
		unk = append(unk, d.msg)
	}
	if !r.e.api {
		r.tokenCases(key, where, obs, exp, pc)
	}
	if len(unk) > 0 {
		r.e.noteFoldsIn(x)
		r.unknown("%s: %s", key, unk[0])
		return
	}
	r.ok("%s", key)
}

// withoutTextEq removes from g the cases in which the unquoted text equals c.
func (e *E) withoutTextEq(g, text, c *T) *T {
	seen := map[int]bool{}
	var found []*T
	var rec func(x *T)
	rec = func(x *T) {
		if x.op != OIte || seen[x.id] {
			return
		}
		seen[x.id] = true
		a := x.args[0]
		if a.op == OEq && len(a.args) == 2 {
			for i := 0; i < 2; i++ {
				if a.args[i] == c && e.normText(a.args[1-i]) == text {
					found = append(found, a)
				}
			}
		}
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(g)
	for _, a := range found {
		g = e.and(g, e.not(e.atom(a)))
	}
	return g
}
