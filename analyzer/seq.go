package main

import (
	"go/constant"
	"strings"
)

// Sequence content helpers. All parts carry a guard in args[0]:
//   OElem(guard, value) OSpread(guard, term) OLoop(guard, domain, body OSeq)
//   OFill(guard, length, value) OUpd(guard, seq, index, value)

func (e *E) seq(parts ...*T) *T {
	if len(e.peel) > 0 {
		parts = e.peelParts(parts)
	}
	return e.mk(&T{op: OSeq, args: parts})
}

// listKey names a parse-tree list accessor by its rule ("" for other terms).
func (e *E) listKey(d *T) string {
	for d.op == OApp && (d.name == "again" || d.name == "until") && len(d.args) > 0 {
		d = d.args[0]
	}
	if d.op != OApp || !strings.HasPrefix(d.name, "g:") || len(d.args) != 1 || e.prog.gram == nil {
		return ""
	}
	r := e.prog.ruleOf(e, d.args[0])
	if r == "" || r == "TOKEN" {
		return ""
	}
	acc, ok := e.prog.gram.accessor(r, d.name[2:])
	if !ok {
		return ""
	}
	if lo, hi := e.prog.gram.count(e.prog.gram.rules[r], acc); hi < 2 || lo > 2 {
		return ""
	}
	return r + "." + d.name[2:]
}

// peeled reports a list that this run instantiates with exactly two elements.
func (e *E) peeled(d *T) bool {
	if len(e.peel) == 0 || d.op != OApp || !strings.HasPrefix(d.name, "g:") {
		return false
	}
	k := e.listKey(d)
	return k != "" && e.peel[k]
}

const peelN = 2

// peelLen is the number of elements of an instantiated list: two, or, in the
// other instantiations, five, or one in the second element of another list.
func (e *E) peelLen(d *T) int {
	n := peelN
	switch e.peelMode {
	case "long":
		n = 5
	case "ragged":
		for x := d.args[0]; x.op == OApp && len(x.args) > 0; x = x.args[0] {
			if x.name == "index" && len(x.args) == 2 {
				if k, ok := x.args[1].isInt(); ok && k == 1 {
					n = 1
				}
				break
			}
		}
	}
	r := e.prog.ruleOf(e, d.args[0])
	if acc, ok := e.prog.gram.accessor(r, d.name[2:]); ok {
		lo, hi := e.prog.gram.count(e.prog.gram.rules[r], acc)
		if n < lo || n > hi {
			return peelN
		}
	}
	return n
}

func (e *E) peelParts(parts []*T) []*T {
	hit := false
	for _, p := range parts {
		if (p.op == OSpread || p.op == OLoop) && e.peeled(p.args[1]) {
			hit = true
		}
	}
	if !hit {
		return parts
	}
	var out []*T
	for _, p := range parts {
		switch {
		case p.op == OSpread && e.peeled(p.args[1]):
			for k := 0; k < e.peelLen(p.args[1]); k++ {
				out = append(out, e.elem(p.args[0], e.app("index", p.args[1], e.intc(k))))
			}
		case p.op == OLoop && e.peeled(p.args[1]):
			for k := 0; k < e.peelLen(p.args[1]); k++ {
				b := e.substElem(p.args[2], p.args[1], e.app("index", p.args[1], e.intc(k)), e.intc(k))
				out = append(out, e.guardParts(p.args[0], b.args)...)
			}
		default:
			out = append(out, p)
		}
	}
	return out
}
func (e *E) elem(g, v *T) *T   { return e.mk(&T{op: OElem, args: []*T{g, v}}) }
func (e *E) spread(g, t *T) *T { return e.mk(&T{op: OSpread, args: []*T{g, t}}) }
func (e *E) loopPart(g, d, body *T) *T {
	return e.mk(&T{op: OLoop, args: []*T{g, d, body}})
}
func (e *E) guardPart(g, p *T) *T {
	if g == e.True {
		return p
	}
	n := *p
	n.args = append([]*T{}, p.args...)
	n.args[0] = e.and(g, p.args[0])
	return e.mk(&T{op: n.op, args: n.args, name: n.name, typ: n.typ, idx: n.idx})
}

func (e *E) guardParts(g *T, ps []*T) []*T {
	var out []*T
	for _, p := range ps {
		q := e.guardPart(g, p)
		if q.args[0] != e.False {
			out = append(out, q)
		}
	}
	return out
}

func simpleElems(seq *T, tr *T) bool {
	for _, p := range seq.args {
		if p.op != OElem || p.args[0] != tr {
			return false
		}
	}
	return true
}

// contentOf returns the OSeq a slice value stands for in state st.
func (e *E) contentOf(st *State, v *T) *T {
	switch v.op {
	case ONil:
		return e.seq()
	case OSlice:
		if c, ok := st.heap[v.args[0].id]; ok {
			if c.op == OSeq {
				return c
			}
			return e.seqOfVal(c)
		}
		return e.seq(e.spread(e.True, v.args[0]))
	case OIte:
		var parts []*T
		for _, l := range e.leaves(v) {
			parts = append(parts, e.guardParts(l.g, e.contentOf(st, l.v).args)...)
		}
		return e.seq(parts...)
	case OSeq:
		return v
	case OConst:
		return e.seq(e.spread(e.True, v))
	}
	return e.seq(e.spread(e.True, v))
}

func (e *E) seqOfVal(c *T) *T {
	switch c.op {
	case OSeq:
		return c
	case OIte:
		a := e.seqOfVal(c.args[1])
		b := e.seqOfVal(c.args[2])
		return e.mergeSeq(e.atom(c.args[0]), a, b)
	}
	return e.seq(e.spread(e.True, c))
}

func (e *E) newSlice(st *State, seq *T) *T {
	a := e.newAlloc("arr", nil)
	st.heap[a.id] = seq
	return e.mk(&T{op: OSlice, args: []*T{a, e.False}})
}

func (e *E) mergeSeq(c, a, b *T) *T {
	if a == b {
		return a
	}
	if a.op != OSeq || b.op != OSeq {
		return e.ite(c, a, b)
	}
	if len(a.args) == len(b.args) && simpleElems(a, e.True) && simpleElems(b, e.True) {
		var ps []*T
		for i := range a.args {
			ps = append(ps, e.elem(e.True, e.ite(c, a.args[i].args[1], b.args[i].args[1])))
		}
		return e.seq(ps...)
	}
	i := 0
	for i < len(a.args) && i < len(b.args) && a.args[i] == b.args[i] {
		i++
	}
	ra, rb := a.args[i:], b.args[i:]
	j := 0
	for j < len(ra) && j < len(rb) && ra[len(ra)-1-j] == rb[len(rb)-1-j] {
		j++
	}
	parts := append([]*T{}, a.args[:i]...)
	parts = append(parts, e.guardParts(c, ra[:len(ra)-j])...)
	parts = append(parts, e.guardParts(e.not(c), rb[:len(rb)-j])...)
	parts = append(parts, ra[len(ra)-j:]...)
	return e.seq(parts...)
}

// seqLen returns the length term.
func (e *E) seqLen(seq *T) *T {
	if seq.op != OSeq {
		return e.lenOf(seq)
	}
	if simpleElems(seq, e.True) {
		return e.intc(len(seq.args))
	}
	if (len(e.peel) > 0 || e.api) && len(seq.args) <= 8 {
		all := true
		for _, p := range seq.args {
			if p.op != OElem {
				all = false
			}
		}
		if all {
			n := e.intc(0)
			for _, p := range seq.args {
				n = e.ite(p.args[0], e.bin("+", n, e.intc(1)), n)
			}
			return n
		}
	}
	if len(seq.args) == 1 && seq.args[0].args[0] == e.True {
		p := seq.args[0]
		switch p.op {
		case OSpread:
			if s, ok := p.args[1].isStr(); ok {
				return e.intc(len(s))
			}
			return e.lenOf(p.args[1])
		case OLoop:
			if len(p.args[2].args) == 1 && p.args[2].args[0].op == OElem && p.args[2].args[0].args[0] == e.True {
				return e.lenOf(p.args[1])
			}
		case OFill:
			return p.args[1]
		case OUpd:
			return e.seqLen(p.args[1])
		}
	}
	return e.app("len", seq)
}

func (e *E) lenOf(d *T) *T {
	switch {
	case d.op == OSeq:
		return e.seqLen(d)
	case d.op == OApp && d.name == "range":
		return d.args[0]
	case e.peeled(d):
		return e.intc(e.peelLen(d))
	}
	return e.app("len", d)
}

// emptySeq is the condition that the sequence is empty.
func (e *E) emptySeq(seq *T) *T {
	if seq.op != OSeq {
		return e.eq(e.lenOf(seq), e.intc(0))
	}
	r := e.True
	for _, p := range seq.args {
		var em *T
		switch p.op {
		case OElem:
			em = e.False
		case OSpread:
			em = e.emptyDom(p.args[1])
		case OLoop:
			ne := e.not(e.emptySeq(p.args[2]))
			em = e.or(e.emptyDom(p.args[1]), e.not(e.anyOf(p.args[1], ne)))
		case OFill:
			em = e.eq(p.args[1], e.intc(0))
		case OUpd:
			em = e.emptySeq(p.args[1])
		default:
			em = e.atom(e.app("empty", p))
		}
		r = e.and(r, e.or(e.not(p.args[0]), em))
	}
	return r
}

func (e *E) emptyDom(d *T) *T {
	if d.op == OSeq {
		return e.emptySeq(d)
	}
	if d.op == OApp && d.name == "range" {
		return e.not(e.lt(e.intc(0), d.args[0]))
	}
	if e.peeled(d) {
		return e.False
	}
	return e.eq(e.app("len", d), e.intc(0))
}

// anyOf is the condition that some element of d satisfies g (g mentions elem(d)).
func (e *E) anyOf(d, g *T) *T {
	if g == e.False {
		return e.False
	}
	ev, iv := e.elemVar(d), e.idxVar(d)
	if !hasVar(g, ev.id) && !hasVar(g, iv.id) {
		return e.and(e.not(e.emptyDom(d)), g)
	}
	if e.peeled(d) {
		r := e.False
		for k := 0; k < e.peelLen(d); k++ {
			r = e.or(r, e.substElem(g, d, e.app("index", d, e.intc(k)), e.intc(k)))
		}
		return r
	}
	return e.atom(e.app("any", d, g))
}

func (e *E) elemVar(d *T) *T { return e.app("elem", d) }
func (e *E) idxVar(d *T) *T  { return e.app("idx", d) }

// seqIndex returns seq[i].
func (e *E) seqIndex(seq, i *T) *T {
	if i.op == OIte {
		return e.lift(i, func(x *T) *T { return e.seqIndex(seq, x) })
	}
	if seq.op == OIte {
		return e.lift(seq, func(x *T) *T { return e.seqIndex(x, i) })
	}
	if b, ok := e.idxBind[i.id]; ok {
		for k := len(b) - 1; k >= 0; k-- {
			if b[k].seq == seq {
				return b[k].val
			}
		}
	}
	if seq.op != OSeq {
		if i.op == OApp && i.name == "idx" && i.args[0] == seq {
			return e.elemVar(seq)
		}
		return e.app("index", seq, i)
	}
	if n, ok := i.isInt(); ok && n >= 0 {
		return e.seqIndexConst(seq.args, int(n), 0)
	}
	if len(seq.args) == 1 && seq.args[0].args[0] == e.True {
		p := seq.args[0]
		if p.op == OSpread {
			if i.op == OApp && i.name == "idx" && e.lenOf(i.args[0]) == e.lenOf(p.args[1]) {
				return e.elemVar(p.args[1])
			}
			return e.app("index", p.args[1], i)
		}
		if p.op == OLoop && i.op == OApp && i.name == "idx" && i.args[0] == p.args[1] {
			b := p.args[2]
			if len(b.args) == 1 && b.args[0].op == OElem && b.args[0].args[0] == e.True {
				return b.args[0].args[1]
			}
		}
		if p.op == OUpd {
			if p.args[2] == i {
				return p.args[3]
			}
		}
		if p.op == OFill {
			return p.args[2]
		}
	}
	return e.app("index", seq, i)
}

func (e *E) seqIndexConst(parts []*T, k, depth int) *T {
	if len(parts) == 0 {
		return e.top("index-out-of-range")
	}
	p := parts[0]
	if depth > 24 {
		return e.app("index", e.seq(parts...), e.intc(k))
	}
	switch p.op {
	case OElem:
		if k == 0 {
			return e.ite(p.args[0], p.args[1], e.lazyIdx(p.args[0], parts[1:], 0, depth))
		}
		if p.args[0] == e.True {
			return e.seqIndexConst(parts[1:], k-1, depth)
		}
		return e.ite(p.args[0], e.seqIndexConst(parts[1:], k-1, depth+1), e.seqIndexConst(parts[1:], k, depth+1))
	case OSpread:
		if len(parts) == 1 {
			return e.app("index", p.args[1], e.intc(k))
		}
	case OLoop:
		b := p.args[2]
		if len(parts) == 1 && p.args[0] == e.True && len(b.args) == 1 && b.args[0].op == OElem && b.args[0].args[0] == e.True {
			return e.substElem(b.args[0].args[1], p.args[1], e.seqIndex(p.args[1], e.intc(k)), e.intc(k))
		}
	case OFill:
		if len(parts) == 1 {
			return p.args[2]
		}
	}
	return e.app("index", e.seq(parts...), e.intc(k))
}

func (e *E) lazyIdx(g *T, rest []*T, k, depth int) *T {
	if g == e.True {
		return e.Nil
	}
	return e.seqIndexConst(rest, k, depth+1)
}

// substElem replaces the generic element/index of d.
func (e *E) substElem(t, d, el, ix *T) *T {
	m := map[int]*T{e.elemVar(d).id: el, e.idxVar(d).id: ix}
	return e.subst(t, m)
}

// subst rebuilds t with the given loop-variable replacements.
func (e *E) subst(t *T, m map[int]*T) *T {
	memo := map[int]*T{}
	var rec func(x *T) *T
	rec = func(x *T) *T {
		if r, ok := m[x.id]; ok {
			return r
		}
		need := false
		for _, v := range x.vars {
			if _, ok := m[v]; ok {
				need = true
				break
			}
		}
		if !need {
			return x
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		if x.op == OApp && x.name == "countbefore" && x.args[0].op == OApp && x.args[0].name == "idx" {
			// the second argument is bound by the first
			if to, ok := m[x.args[0].id]; ok {
				d := x.args[0].args[0]
				if k, ok := to.isInt(); ok && k >= 0 && k <= 4 {
					r := e.intc(0)
					for j := 0; j < int(k); j++ {
						g := e.substElem(x.args[1], d, e.seqIndex(d, e.intc(j)), e.intc(j))
						r = e.ite(g, e.bin("+", r, e.intc(1)), r)
					}
					memo[x.id] = r
					return r
				}
			}
		}
		args := make([]*T, len(x.args))
		for i, a := range x.args {
			args[i] = rec(a)
		}
		r := e.rebuild(x, args)
		memo[x.id] = r
		return r
	}
	return rec(t)
}

func (e *E) rebuild(x *T, a []*T) *T {
	switch x.op {
	case OIte:
		return e.ite(a[0], a[1], a[2])
	case OEq:
		return e.eq(a[0], a[1])
	case OLt:
		return e.lt(a[0], a[1])
	case OCat:
		return e.cat(a...)
	case OBin:
		return e.bin(x.name, a[0], a[1])
	case OApp:
		if x.name == "index" {
			return e.seqIndex(a[0], a[1])
		}
		if x.name == "len" {
			return e.lenOf(a[0])
		}
		if x.name == "join" {
			return e.join(a[0], a[1])
		}
		if x.name == "any" {
			return e.anyOf(a[0], a[1])
		}
		if strings.HasPrefix(x.name, "call:") || strings.HasPrefix(x.name, "g:") {
			return e.reapply(x, a)
		}
	case OTypeIs:
		return e.typeIs(a[0], x.typ)
	case OSeq:
		if len(e.peel) > 0 {
			return e.seq(a...)
		}
	case OElem, OSpread, OLoop:
		if a[0] == e.False && e.api {
			return e.mk(&T{op: OElem, args: []*T{e.False, e.Nil}})
		}
	}
	n := &T{op: x.op, name: x.name, idx: x.idx, args: a, typ: x.typ, cv: x.cv, fn: x.fn}
	return e.mk(n)
}

func (e *E) reapply(x *T, a []*T) *T {
	r := e.mk(&T{op: OApp, name: x.name, args: a, typ: x.typ})
	if t, ok := e.rtypes[x.id]; ok {
		e.rtypes[r.id] = t
	}
	return r
}

// ---------------------------------------------------------------- strings

func (e *E) cat(parts ...*T) *T {
	var flat []*T
	push := func(p *T) {
		if s, ok := p.isStr(); ok {
			if s == "" {
				return
			}
			if n := len(flat); n > 0 {
				if q, ok := flat[n-1].isStr(); ok {
					flat[n-1] = e.str(q + s)
					return
				}
			}
		}
		flat = append(flat, p)
	}
	for _, p := range parts {
		if p.op == OCat {
			for _, q := range p.args {
				push(q)
			}
		} else {
			push(p)
		}
	}
	switch len(flat) {
	case 0:
		return e.str("")
	case 1:
		return flat[0]
	}
	return e.mk(&T{op: OCat, args: flat})
}

// mergeCat factors the common prefix and suffix of two strings.
func (e *E) mergeCat(c, a, b *T) *T {
	pa, pb := catParts(a), catParts(b)
	i := 0
	for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
		i++
	}
	// common constant prefix
	var pre []*T
	pre = append(pre, pa[:i]...)
	ra, rb := append([]*T{}, pa[i:]...), append([]*T{}, pb[i:]...)
	if len(ra) > 0 && len(rb) > 0 {
		sa, ok1 := ra[0].isStr()
		sb, ok2 := rb[0].isStr()
		if ok1 && ok2 {
			n := 0
			for n < len(sa) && n < len(sb) && sa[n] == sb[n] {
				n++
			}
			if n > 0 && (i > 0 || n == len(sa) || n == len(sb)) {
				pre = append(pre, e.str(sa[:n]))
				ra[0], rb[0] = e.str(sa[n:]), e.str(sb[n:])
			}
		}
	}
	if len(pre) == 0 {
		return e.ite(c, a, b)
	}
	return e.cat(append(pre, e.ite(c, e.cat(ra...), e.cat(rb...)))...)
}

func catParts(t *T) []*T {
	if t.op == OCat {
		return t.args
	}
	if s, ok := t.isStr(); ok && s == "" {
		return nil
	}
	return []*T{t}
}

func (e *E) isStringTerm(t *T) bool {
	if t.op == OCat {
		return true
	}
	_, ok := t.isStr()
	return ok
}

// join models strings.Join(seq, sep).
func (e *E) join(sep, seq *T) *T {
	if sep.op == OIte {
		return e.lift(sep, func(x *T) *T { return e.join(x, seq) })
	}
	if seq.op == OIte {
		return e.lift(seq, func(x *T) *T { return e.join(sep, x) })
	}
	if seq.op == OSeq && simpleElems(seq, e.True) {
		var ps []*T
		for i, p := range seq.args {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, p.args[1])
		}
		return e.cat(ps...)
	}
	// pull an unguarded leading part out: join([a, rest...]) when the rest is
	// known to be non-empty or each remaining part can be prefixed by sep.
	if seq.op == OSeq && len(seq.args) > 1 && seq.args[0].op == OElem && seq.args[0].args[0] == e.True {
		out := []*T{seq.args[0].args[1]}
		ok := true
		for _, p := range seq.args[1:] {
			switch p.op {
			case OElem:
				out = append(out, e.ite(p.args[0], e.cat(sep, p.args[1]), e.str("")))
			case OLoop:
				if len(p.args[2].args) == 1 && p.args[2].args[0].op == OElem {
					el := p.args[2].args[0]
					out = append(out, e.ite(p.args[0], e.loopCat(p.args[1], e.ite(el.args[0], e.cat(sep, el.args[1]), e.str(""))), e.str("")))
				} else {
					ok = false
				}
			default:
				ok = false
			}
		}
		if ok {
			return e.cat(out...)
		}
	}
	return e.app("join", sep, seq)
}

func (e *E) loopCat(d, body *T) *T {
	if s, ok := body.isStr(); ok && s == "" {
		return body
	}
	return e.app("loopcat", d, body)
}

// neverEmpty reports whether a string term is definitely non-empty.
func (e *E) neverEmpty(t *T) bool {
	switch t.op {
	case OConst:
		return t.cv.Kind() == constant.String && constant.StringVal(t.cv) != ""
	case OCat:
		for _, p := range t.args {
			if e.neverEmpty(p) {
				return true
			}
		}
	case OIte:
		return e.neverEmpty(t.args[1]) && e.neverEmpty(t.args[2])
	case OApp:
		if t.name == "str:int" {
			return true
		}
	}
	return false
}
