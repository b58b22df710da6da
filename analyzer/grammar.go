package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Grammar is an ANTLR parser grammar read from the .g4 sources.
type Grammar struct {
	rules     map[string]*gnode
	order     []string
	tokText   map[string]string // token -> literal text (upper case for keywords)
	tokens    map[string]bool
	countMemo map[string][]uint64
	combos    map[string][]uint32

	catchAll bool
}

type gkind uint8

const (
	gSeq gkind = iota
	gAlt
	gOpt
	gStar
	gPlus
	gRef // rule or token
	gNone
)

type gnode struct {
	kind  gkind
	kids  []*gnode
	name  string
	label string
	list  bool // += label
}

func stripG4(src string) string {
	var b strings.Builder
	for i := 0; i < len(src); {
		switch {
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return b.String()
			}
			i += j + 4
		case strings.HasPrefix(src[i:], "//"):
			j := strings.IndexByte(src[i:], '\n')
			if j < 0 {
				return b.String()
			}
			i += j
		case src[i] == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			b.WriteString(src[i : j+1])
			i = j + 1
		default:
			b.WriteByte(src[i])
			i++
		}
	}
	return b.String()
}

func g4tokens(src string) []string {
	var out []string
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, src[i:j+1])
			i = j + 1
		case c == '[':
			j := i + 1
			for j < len(src) && src[j] != ']' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, src[i:j+1])
			i = j + 1
		case isIdent(c):
			j := i
			for j < len(src) && isIdent(src[j]) {
				j++
			}
			out = append(out, src[i:j])
			i = j
		case strings.HasPrefix(src[i:], "+="):
			out = append(out, "+=")
			i += 2
		case strings.HasPrefix(src[i:], "->"):
			out = append(out, "->")
			i += 2
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func isIdent(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func loadGrammar(dir string) (*Grammar, error) {
	p, err := os.ReadFile(dir + "/SQLiteParser.g4")
	if err != nil {
		return nil, err
	}
	l, err := os.ReadFile(dir + "/SQLiteLexer.g4")
	if err != nil {
		return nil, err
	}
	g := &Grammar{rules: map[string]*gnode{}, tokText: map[string]string{}, tokens: map[string]bool{}, combos: map[string][]uint32{}}
	toks := g4tokens(stripG4(string(l)))
	for i := 0; i < len(toks); {
		// NAME : ... ;
		if toks[i] == "fragment" {
			i++
		}
		if i+1 < len(toks) && toks[i+1] == ":" {
			name := toks[i]
			j := i + 2
			var body []string
			for j < len(toks) && toks[j] != ";" {
				body = append(body, toks[j])
				j++
			}
			g.tokens[name] = true
			if len(body) == 1 && body[0] == "." {
				g.catchAll = true
			}
			if len(body) == 1 && body[0][0] == '\'' {
				g.tokText[name] = strings.ReplaceAll(body[0][1:len(body[0])-1], "\\'", "'")
			}
			i = j + 1
			continue
		}
		for i < len(toks) && toks[i] != ";" && toks[i] != "}" {
			i++
		}
		i++
	}
	toks = g4tokens(stripG4(string(p)))
	i := 0
	for i < len(toks) {
		if i+1 < len(toks) && toks[i+1] == ":" {
			name := toks[i]
			ps := &g4parser{toks: toks, i: i + 2}
			n := ps.alts()
			g.rules[name] = n
			g.order = append(g.order, name)
			i = ps.i + 1
			continue
		}
		if toks[i] == "options" {
			for i < len(toks) && toks[i] != "}" {
				i++
			}
			i++
			continue
		}
		i++
	}
	if len(g.rules) < 50 {
		return nil, fmt.Errorf("grammar: only %d rules read", len(g.rules))
	}
	return g, nil
}

type g4parser struct {
	toks []string
	i    int
}

func (p *g4parser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ";"
}

func (p *g4parser) alts() *gnode {
	n := &gnode{kind: gAlt}
	n.kids = append(n.kids, p.seq())
	for p.peek() == "|" {
		p.i++
		n.kids = append(n.kids, p.seq())
	}
	if len(n.kids) == 1 {
		return n.kids[0]
	}
	return n
}

func (p *g4parser) seq() *gnode {
	n := &gnode{kind: gSeq}
	for {
		t := p.peek()
		if t == ";" || t == "|" || t == ")" {
			return n
		}
		if t == "<" { // <assoc=right>
			for p.peek() != ">" {
				p.i++
			}
			p.i++
			continue
		}
		if t == "#" {
			p.i += 2
			continue
		}
		label, list := "", false
		if p.i+1 < len(p.toks) && (p.toks[p.i+1] == "=" || p.toks[p.i+1] == "+=") {
			label = t
			list = p.toks[p.i+1] == "+="
			p.i += 2
		}
		var el *gnode
		if p.peek() == "(" {
			p.i++
			el = p.alts()
			p.i++ // )
			if label != "" {
				el = &gnode{kind: gSeq, kids: []*gnode{el}, label: label, list: list}
			}
		} else {
			el = &gnode{kind: gRef, name: p.peek(), label: label, list: list}
			p.i++
		}
		switch p.peek() {
		case "?":
			p.i++
			el = &gnode{kind: gOpt, kids: []*gnode{el}}
		case "*":
			p.i++
			el = &gnode{kind: gStar, kids: []*gnode{el}}
		case "+":
			p.i++
			el = &gnode{kind: gPlus, kids: []*gnode{el}}
		}
		if p.peek() == "?" { // non-greedy
			p.i++
		}
		n.kids = append(n.kids, el)
	}
}

// accessor describes what a generated accessor selects.
type accessor struct {
	label string
	ref   string
}

func (g *Grammar) accessor(rule, method string) (accessor, bool) {
	if strings.HasPrefix(method, "Get") && len(method) > 3 {
		l := method[3:]
		for _, c := range []string{strings.ToLower(l[:1]) + l[1:], l} {
			if g.hasLabel(g.rules[rule], c) {
				return accessor{label: c}, true
			}
		}
		return accessor{}, false
	}
	m := strings.TrimPrefix(method, "All")
	if g.tokens[m] || m == "EOF" {
		return accessor{ref: m}, true
	}
	r := strings.ToLower(m[:1]) + m[1:]
	if _, ok := g.rules[r]; ok {
		return accessor{ref: r}, true
	}
	return accessor{}, false
}

func (g *Grammar) hasLabel(n *gnode, l string) bool {
	if n == nil {
		return false
	}
	if n.label == l {
		return true
	}
	for _, k := range n.kids {
		if g.hasLabel(k, l) {
			return true
		}
	}
	return false
}

func (a accessor) key() string { return a.label + "/" + a.ref }

// presence returns the set of joint presence masks of the tracked accessors in
// the children of rule.
func (g *Grammar) presence(rule string, as ...accessor) []uint32 {
	k := rule
	for _, a := range as {
		k += "|" + a.key()
	}
	if r, ok := g.combos[k]; ok {
		return r
	}
	set := g.pres(g.rules[rule], as)
	var out []uint32
	for m := range set {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	g.combos[k] = out
	return out
}

func (g *Grammar) pres(n *gnode, as []accessor) map[uint32]bool {
	own := uint32(0)
	for i, a := range as {
		if a.label != "" && n.label == a.label {
			own |= 1 << i
		}
		if a.ref != "" && n.kind == gRef && n.name == a.ref {
			own |= 1 << i
		}
	}
	res := map[uint32]bool{}
	switch n.kind {
	case gRef:
		res[own] = true
		return res
	case gSeq:
		res[0] = true
		for _, k := range n.kids {
			ks := g.pres(k, as)
			nr := map[uint32]bool{}
			for a := range res {
				for b := range ks {
					nr[a|b] = true
				}
			}
			res = nr
		}
	case gAlt:
		for _, k := range n.kids {
			for m := range g.pres(k, as) {
				res[m] = true
			}
		}
	case gOpt:
		res = g.pres(n.kids[0], as)
		res[0] = true
	case gStar, gPlus:
		ks := g.pres(n.kids[0], as)
		for m := range ks {
			res[m] = true
		}
		for ch := true; ch; {
			ch = false
			for a := range res {
				for b := range ks {
					if !res[a|b] {
						res[a|b] = true
						ch = true
					}
				}
			}
		}
		if n.kind == gStar {
			res[0] = true
		}
	}
	if own != 0 {
		nr := map[uint32]bool{}
		for m := range res {
			nr[m|own] = true
		}
		return nr
	}
	return res
}

// count returns the minimum and maximum (capped at 2) number of occurrences.
func (g *Grammar) count(n *gnode, a accessor) (int, int) {
	if n == nil {
		return 0, 0
	}
	if (a.label != "" && n.label == a.label) || (a.ref != "" && n.kind == gRef && n.name == a.ref) {
		return 1, 1
	}
	cap2 := func(x int) int {
		if x > 2 {
			return 2
		}
		return x
	}
	switch n.kind {
	case gSeq:
		lo, hi := 0, 0
		for _, k := range n.kids {
			l, h := g.count(k, a)
			lo += l
			hi += h
		}
		return cap2(lo), cap2(hi)
	case gAlt:
		lo, hi := 99, 0
		for _, k := range n.kids {
			l, h := g.count(k, a)
			if l < lo {
				lo = l
			}
			if h > hi {
				hi = h
			}
		}
		return lo, hi
	case gOpt:
		_, h := g.count(n.kids[0], a)
		return 0, h
	case gStar:
		_, h := g.count(n.kids[0], a)
		if h > 0 {
			h = 2
		}
		return 0, h
	case gPlus:
		l, h := g.count(n.kids[0], a)
		if h > 0 {
			h = 2
		}
		return l, h
	}
	return 0, 0
}

// texts returns the finite set of token texts a rule or token can have.
func (g *Grammar) texts(name string, depth int) []string {
	if t, ok := g.tokText[name]; ok {
		return []string{t}
	}
	if g.tokens[name] || depth > 4 {
		return nil
	}
	n := g.rules[name]
	if n == nil {
		return nil
	}
	var rec func(n *gnode) []string
	rec = func(n *gnode) []string {
		switch n.kind {
		case gRef:
			return g.texts(n.name, depth+1)
		case gAlt:
			var out []string
			for _, k := range n.kids {
				s := rec(k)
				if s == nil {
					return nil
				}
				out = append(out, s...)
			}
			return out
		case gSeq:
			if len(n.kids) == 1 {
				return rec(n.kids[0])
			}
		}
		return nil
	}
	return rec(n)
}

// labelTokens returns the tokens a label can stand for.
func (g *Grammar) labelTokens(rule, label string) []string {
	var out []string
	var rec func(n *gnode, in bool)
	rec = func(n *gnode, in bool) {
		if n.label == label {
			in = true
		}
		if n.kind == gRef && in {
			out = append(out, n.name)
		}
		for _, k := range n.kids {
			rec(k, in)
		}
	}
	if n := g.rules[rule]; n != nil {
		rec(n, false)
	}
	return out
}

// ---------------------------------------------------------------- term hooks

const antlrPkg = "github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"

func ruleOfType(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	nm := n.Obj().Name()
	pp := n.Obj().Pkg().Path()
	if pp == antlrPkg && strings.HasSuffix(nm, "Context") {
		nm = strings.TrimSuffix(nm, "Context")
		if _, isI := n.Underlying().(*types.Interface); isI {
			nm = strings.TrimPrefix(nm, "I")
		}
		return strings.ToLower(nm[:1]) + nm[1:]
	}
	if strings.HasPrefix(pp, "github.com/antlr4-go/antlr") && (nm == "TerminalNode" || nm == "Token") {
		return "TOKEN"
	}
	return ""
}

// ruleOf returns the grammar rule of a parse-tree term ("TOKEN" for tokens).
func (p *Program) ruleOf(e *E, t *T) string {
	if t.op != OApp {
		return ""
	}
	if strings.HasPrefix(t.name, "tree:") {
		return t.name[5:]
	}
	switch t.name {
	case "elem", "index", "first", "last":
		d := t.args[0]
		for d.op == OApp && (d.name == "again" || d.name == "sub" || d.name == "until" || d.name == "reverse") {
			d = d.args[0]
		}
		if d.op == OSeq && len(d.args) == 1 && d.args[0].op == OSpread {
			d = d.args[0].args[1]
		}
		if tt, ok := e.rtypes[d.id]; ok {
			if s, ok := tt.Underlying().(*types.Slice); ok {
				return ruleOfType(s.Elem())
			}
		}
		return ""
	}
	if strings.HasPrefix(t.name, "g:") {
		return ruleOfType(e.rtypes[t.id])
	}
	return ""
}

func (p *Program) isGrammarTerm(t *T) bool {
	if t.op != OApp {
		return false
	}
	return p.ruleOf(p.eng, t) != ""
}

func isListAccessor(t *T) bool { return strings.HasPrefix(t.name, "g:All") }

// nilnessOf: 1 always nil, 0 never nil, -1 unknown.
func (p *Program) nilnessOf(e *E, a *T) int {
	if p.gram == nil {
		return -1
	}
	if strings.HasPrefix(a.name, "tree:") {
		return 0
	}
	switch a.name {
	case "elem", "index", "first", "last":
		if p.ruleOf(e, a) != "" {
			return 0
		}
		return -1
	}
	if !strings.HasPrefix(a.name, "g:") || len(a.args) != 1 {
		return -1
	}
	r := p.ruleOf(e, a.args[0])
	if r == "" || r == "TOKEN" {
		return -1
	}
	if p.ruleOf(e, a) == "" {
		return -1
	}
	acc, ok := p.gram.accessor(r, a.name[2:])
	if !ok {
		return -1
	}
	if e.only != "" && r == "sql_stmt" && strings.HasSuffix(a.name, "_stmt") {
		if a.name == "g:"+e.only {
			return 0
		}
		return 1
	}
	lo, hi := p.gram.count(p.gram.rules[r], acc)
	if lo >= 1 {
		return 0
	}
	if hi == 0 {
		return 1
	}
	return -1
}

// impliedPresence: (a is nil) = val implies (b is nil) = ?
func (p *Program) impliedPresence(e *E, a *T, val bool, b *T) int {
	if a.op != OApp || b.op != OApp || !strings.HasPrefix(a.name, "g:") || !strings.HasPrefix(b.name, "g:") {
		return -1
	}
	if len(a.args) != 1 || len(b.args) != 1 || a.args[0] != b.args[0] {
		return -1
	}
	r := p.ruleOf(e, a.args[0])
	if r == "" || r == "TOKEN" {
		return -1
	}
	x, ok1 := p.gram.accessor(r, a.name[2:])
	y, ok2 := p.gram.accessor(r, b.name[2:])
	if !ok1 || !ok2 {
		return -1
	}
	can := [2]bool{} // b present?
	for _, m := range p.gram.presence(r, x, y) {
		if (m&1 == 0) == val {
			can[(m>>1)&1] = true
		}
	}
	if can[0] && !can[1] {
		return 1
	}
	if can[1] && !can[0] {
		return 0
	}
	return -1
}

// finiteTexts returns the possible (upper-case) texts of a text term.
func (p *Program) finiteTexts(e *E, s *T) []string {
	if s.op == OApp && s.name == "strings.ToUpper" {
		s = s.args[0]
	}
	if s.op != OApp || s.name != "GetText" {
		return nil
	}
	x := s.args[0]
	r := p.ruleOf(e, x)
	if r == "" {
		return nil
	}
	if r != "TOKEN" {
		return p.gram.texts(r, 0)
	}
	if strings.HasPrefix(x.name, "g:") {
		pr := p.ruleOf(e, x.args[0])
		acc, ok := p.gram.accessor(pr, x.name[2:])
		if !ok {
			return nil
		}
		if acc.ref != "" {
			return p.gram.texts(acc.ref, 0)
		}
		var out []string
		for _, t := range p.gram.labelTokens(pr, acc.label) {
			s := p.gram.texts(t, 0)
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	}
	return nil
}

// impliedText uses finite text sets: exactly one of the equalities holds.
func (p *Program) impliedText(e *E, a *T, val bool, b *T) int {
	if a.op != OEq || b.op != OEq || a.args[0] != b.args[0] || val {
		return -1
	}
	s := a.args[0]
	if s.op != OApp || s.name != "strings.ToUpper" {
		return -1
	}
	ts := p.finiteTexts(e, s)
	if len(ts) != 2 {
		return -1
	}
	ca, ok1 := a.args[1].isStr()
	cb, ok2 := b.args[1].isStr()
	if ok1 && ok2 && ca != cb && (ts[0] == ca && ts[1] == cb || ts[0] == cb && ts[1] == ca) {
		return 1
	}
	return -1
}

// eqText decides or rewrites Eq(text term, constant).
func (p *Program) eqText(e *E, a *T, s string) *T {
	if p.gram == nil {
		return nil
	}
	ts := p.finiteTexts(e, a)
	if ts == nil {
		return nil
	}
	in := false
	for _, t := range ts {
		if t == s {
			in = true
		}
	}
	up := a.op == OApp && a.name == "strings.ToUpper"
	if !in {
		if up || s == "" {
			return e.False
		}
		return nil
	}
	if len(ts) == 1 && (up || strings.ToUpper(s) == strings.ToLower(s)) {
		return e.True
	}
	// label text <-> token presence (operators only: their text is exact)
	g := a
	if up {
		g = a.args[0]
	}
	x := g.args[0]
	if strings.ToUpper(s) == strings.ToLower(s) || up {
		if x.op == OApp && strings.HasPrefix(x.name, "g:Get") {
			pr := p.ruleOf(e, x.args[0])
			if acc, ok := p.gram.accessor(pr, x.name[2:]); ok && acc.label != "" {
				toks := p.gram.labelTokens(pr, acc.label)
				var hit []string
				for _, t := range toks {
					if p.gram.tokText[t] == s {
						hit = append(hit, t)
					}
				}
				if len(hit) == 1 {
					_, hi := p.gram.count(p.gram.rules[pr], accessor{ref: hit[0]})
					if hi == 1 {
						tok := e.app("g:"+hit[0], x.args[0])
						e.noteType(tok, p.terminalNode)
						return e.not(e.eq(tok, e.Nil))
					}
				}
			}
		}
	}
	return nil
}

// grammarTypeIs: each context interface has exactly one implementation.
func (p *Program) grammarTypeIs(e *E, x *T, t types.Type) *T {
	r := p.ruleOf(e, x)
	if r == "" || r == "TOKEN" {
		return nil
	}
	if ruleOfType(t) == r {
		return e.not(e.eq(x, e.Nil))
	}
	if ruleOfType(t) != "" {
		return e.False
	}
	return nil
}

// minLen is the minimum length of a parse-tree list.
func (p *Program) minLen(e *E, d *T) int {
	if p.gram == nil || d.op != OApp || !strings.HasPrefix(d.name, "g:") || len(d.args) != 1 {
		return 0
	}
	r := p.ruleOf(e, d.args[0])
	acc, ok := p.gram.accessor(r, d.name[2:])
	if !ok {
		return 0
	}
	lo, _ := p.gram.count(p.gram.rules[r], acc)
	return lo
}

// endsInEOF reports whether every alternative of a rule ends with EOF.
func (g *Grammar) endsInEOF(rule string) bool {
	var rec func(n *gnode) bool
	rec = func(n *gnode) bool {
		switch n.kind {
		case gRef:
			return n.name == "EOF"
		case gSeq:
			return len(n.kids) > 0 && rec(n.kids[len(n.kids)-1])
		case gAlt:
			for _, k := range n.kids {
				if !rec(k) {
					return false
				}
			}
			return len(n.kids) > 0
		}
		return false
	}
	n := g.rules[rule]
	return n != nil && rec(n)
}

// hasCatchAll reports whether some lexer rule matches any single character.
func (g *Grammar) hasCatchAll() bool { return g.catchAll }

// generatedMatchesEOF reports whether the generated entry rule consumes EOF.
func (p *Program) generatedMatchesEOF() bool {
	sp := p.ssaPkgs[antlrPkg]
	if sp == nil {
		return false
	}
	o := sp.Pkg.Scope().Lookup("SQLiteParser")
	if o == nil {
		return false
	}
	fn := p.methodNamed(types.NewPointer(o.Type()), "Parse")
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := c.Common().StaticCallee(); f != nil && f.Name() == "Match" {
				for _, a := range c.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) < 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

// axioms returns what the grammar says jointly about the presence atoms of a
// condition: for every parse-tree node whose children it tests, the allowed
// combinations of present and absent children.
func (e *E) axioms(t *T) *T {
	if t.op != OIte || e.prog.gram == nil {
		return e.True
	}
	if r, ok := e.axMemo[t.id]; ok {
		return r
	}
	type numAtom struct {
		k  int64
		eq bool // len == k, else k < len
		at *T
	}
	type group struct {
		n    *T
		gs   []*T // optional parts compared with nil
		lens []*T // lists whose lengths are compared
	}
	seen := map[int]bool{}
	groups := map[int]*group{}
	nums := map[int][]numAtom{}
	var order []*group
	var lens []*T
	at := func(n *T) *group {
		g := groups[n.id]
		if g == nil {
			g = &group{n: n}
			groups[n.id] = g
			order = append(order, g)
		}
		return g
	}
	num := func(l *T, a numAtom) {
		if nums[l.id] == nil {
			lens = append(lens, l)
			if d := l.args[0]; d.op == OApp && strings.HasPrefix(d.name, "g:All") && len(d.args) == 1 {
				g := at(d.args[0])
				g.lens = append(g.lens, l)
			}
		}
		nums[l.id] = append(nums[l.id], a)
	}
	isLen := func(x *T) bool { return x.op == OApp && x.name == "len" && len(x.args) == 1 }
	var rec func(x *T)
	rec = func(x *T) {
		if x.op != OIte || seen[x.id] {
			return
		}
		seen[x.id] = true
		a := x.args[0]
		if !seen[-a.id] {
			seen[-a.id] = true
			switch {
			case a.op == OEq && a.args[1].op == ONil:
				g := a.args[0]
				if g.op == OApp && strings.HasPrefix(g.name, "g:") && len(g.args) == 1 {
					gr := at(g.args[0])
					gr.gs = append(gr.gs, g)
				}
			case a.op == OEq && isLen(a.args[0]):
				if k, ok := a.args[1].isInt(); ok {
					num(a.args[0], numAtom{k, true, a})
				}
			case a.op == OLt && isLen(a.args[1]):
				if k, ok := a.args[0].isInt(); ok {
					num(a.args[1], numAtom{k, false, a})
				}
			case a.op == OLt && isLen(a.args[0]):
				if k, ok := a.args[1].isInt(); ok {
					// len < k: the negation of k-1 < len
					num(a.args[0], numAtom{k - 1, false, e.not(e.atom(a))})
				}
			}
		}
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(t)
	lit := func(a numAtom, v int64) *T {
		c := a.at
		if c.op != OIte {
			c = e.atom(c)
		}
		if a.eq && v == a.k || !a.eq && a.k < v {
			return c
		}
		return e.not(c)
	}
	r := e.True
	// what lengths can be
	for _, l := range lens {
		as := nums[l.id]
		if len(as) < 2 {
			continue
		}
		lo := int64(e.prog.minLen(e, l.args[0]))
		vals := map[int64]bool{}
		for _, a := range as {
			for d := int64(-1); d <= 1; d++ {
				if v := a.k + d; v >= lo {
					vals[v] = true
				}
			}
		}
		any := e.False
		for v := range vals {
			c := e.True
			for _, a := range as {
				c = e.and(c, lit(a, v))
			}
			any = e.or(any, c)
		}
		r = e.and(r, any)
	}
	for _, gr := range order {
		gs := gr.gs
		if len(gs) < 3 && (len(gs) == 0 || len(gr.lens) == 0) || len(gs)+len(gr.lens) > 24 {
			continue
		}
		rule := e.prog.ruleOf(e, gr.n)
		if rule == "" || rule == "TOKEN" || e.prog.gram.rules[rule] == nil {
			continue
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
		var as []accessor
		var us []*T
		for _, g := range gs {
			if a, ok := e.prog.gram.accessor(rule, g.name[2:]); ok {
				as = append(as, a)
				us = append(us, g)
			}
		}
		var ls []*T
		for _, l := range gr.lens {
			ok := true
			for _, a := range nums[l.id] {
				ok = ok && (a.eq && a.k <= 2 || !a.eq && a.k <= 1)
			}
			if a, found := e.prog.gram.accessor(rule, l.args[0].name[2:]); ok && found {
				as = append(as, a)
				ls = append(ls, l)
			}
		}
		any := e.False
		if len(ls) == 0 {
			if len(us) < 3 {
				continue
			}
			ms := e.prog.gram.presence(rule, as...)
			if len(ms) > 512 {
				continue
			}
			for _, m := range ms {
				c := e.True
				for i := len(us) - 1; i >= 0; i-- {
					isNil := e.eq(us[i], e.Nil)
					if m>>uint(i)&1 == 1 {
						isNil = e.not(isNil)
					}
					c = e.and(isNil, c)
				}
				any = e.or(any, c)
			}
		} else {
			ms := e.prog.gram.counts(rule, as...)
			if len(ms) > 512 {
				continue
			}
			for _, m := range ms {
				c := e.True
				for i := len(as) - 1; i >= 0; i-- {
					k := int64(m >> uint(2*i) & 3)
					if i >= len(us) {
						for _, a := range nums[ls[i-len(us)].id] {
							c = e.and(c, lit(a, k))
						}
						continue
					}
					isNil := e.eq(us[i], e.Nil)
					if k > 0 {
						isNil = e.not(isNil)
					}
					c = e.and(isNil, c)
				}
				any = e.or(any, c)
			}
		}
		r = e.and(r, any)
	}
	e.axMemo[t.id] = r
	return r
}

// counts returns how often the parts of a rule can occur together, as two bits
// for each accessor (3: three times or more).
func (g *Grammar) counts(rule string, as ...accessor) []uint64 {
	k := "#" + rule
	for _, a := range as {
		k += "|" + a.key()
	}
	if r, ok := g.countMemo[k]; ok {
		return r
	}
	add := func(a, b uint64) uint64 {
		var r uint64
		for i := range as {
			s := a>>uint(2*i)&3 + b>>uint(2*i)&3
			if s > 3 {
				s = 3
			}
			r |= s << uint(2*i)
		}
		return r
	}
	var rec func(n *gnode) map[uint64]bool
	rec = func(n *gnode) map[uint64]bool {
		own := uint64(0)
		for i, a := range as {
			if a.label != "" && n.label == a.label || a.ref != "" && n.kind == gRef && n.name == a.ref {
				own |= 1 << uint(2*i)
			}
		}
		res := map[uint64]bool{}
		if n.kind == gRef {
			res[own] = true
			return res
		}
		sum := func(x, y map[uint64]bool) map[uint64]bool {
			nr := map[uint64]bool{}
			for a := range x {
				for b := range y {
					nr[add(a, b)] = true
				}
			}
			return nr
		}
		switch n.kind {
		case gSeq:
			res[0] = true
			for _, k := range n.kids {
				res = sum(res, rec(k))
			}
		case gAlt:
			for _, k := range n.kids {
				for m := range rec(k) {
					res[m] = true
				}
			}
		case gOpt:
			for m := range rec(n.kids[0]) {
				res[m] = true
			}
			res[0] = true
		case gStar, gPlus:
			ks := rec(n.kids[0])
			for m := range ks {
				res[m] = true
			}
			for {
				before := len(res)
				for m := range sum(res, ks) {
					res[m] = true
				}
				if len(res) == before {
					break
				}
			}
			if n.kind == gStar {
				res[0] = true
			}
		default:
			res[0] = true
		}
		if own != 0 {
			nr := map[uint64]bool{}
			for m := range res {
				nr[add(m, own)] = true
			}
			return nr
		}
		return res
	}
	var out []uint64
	for m := range rec(g.rules[rule]) {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if g.countMemo == nil {
		g.countMemo = map[string][]uint64{}
	}
	g.countMemo[k] = out
	return out
}

// sat returns the condition conjoined with what the grammar says about it.
func (e *E) sat(t *T) *T {
	if t.op != OIte {
		return t
	}
	return e.and(t, e.axioms(t))
}
