package main

import (
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"
)

// This file decides what the tokens of the grammar turn into. The value a
// statement reports is a term over the texts of parse-tree nodes. Comparing
// these terms up to quoting (match.go) settles where a value comes from; here
// the texts are replaced by chosen tokens of the node's kind (a string with
// doubled quotes, a quoted name, the largest number) and the term is folded,
// which settles how the text is decoded. Only differences between constants
// are reported.

var (
	nameToks = []string{"a", "Abc_1", "`a b`", "\"a b\"", "_x9", "order_item_identifier_of_the_customer_of_the_previous_fiscal_year_x", "'q'", "key_of", "z", "KEYWORD", "PRIMARY_ID", "INDEX_NO", "key", "UNIQUE_NO", "CONSTRAINT_X"}
	strToks  = []string{"'a'", "''", "'it''s'", "''''", "'''a'''", "' a '", "'\"a\"'", "'(a)'", "'5'", "'NULL'", "'true'", "'a\\'", "'a;'", "'`a`'", "'a\n'", "'\t'",
		"'Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua. Ut enim ad minim veniam, quis nostrud exercitation ullamco laboris nisi ut aliquip ex ea commodo consequat. Duis aute irure dolor in rep'"}
	litToks  = []string{"5", "-5", "1.50", "007", "1e5", "NULL", "true", "X'41'", "FALSE", "CURRENT_TIMESTAMP", "9223372036854775808", "0", "0x1F", "+3", "-0.0"}
	bindToks = []string{"?", "$1", ":name", "?12", "@v", "$10"}
	exprToks = []string{"a", "5", "'x'", "\"a b\"", "t.a", "'it''s'", "`a`", "10"}
	ordToks  = []string{"ASC", "DESC", "asc", "Desc"}
	opToks   = []string{"+", "-", "*", "/", "%"}
	uintToks = []string{"0", "1", "7", "4294967296", "18446744073709551615", "100", "65536", "2147483648"}
	srcToks  = []string{"STDIN", "'/tmp/a b.csv'", "'it''s.csv'"}
)

// nodeKind names the kind of text a parse-tree node has.
func nodeKind(n *T) string {
	if n.op != OApp || len(n.args) == 0 {
		return ""
	}
	switch n.name {
	case "elem", "index":
		if n.name == "index" && n.args[0].op == OApp && n.args[0].name == "g:AllExpr" && n.args[0].args[0].op == OApp && n.args[0].args[0].name == "g:Limit_stmt" {
			return "uint"
		}
		return nodeKind(n.args[0])
	}
	if !strings.HasPrefix(n.name, "g:") {
		return ""
	}
	a := strings.TrimPrefix(n.name[2:], "All")
	switch {
	case a == "String_literal":
		return "str"
	case a == "Literal_value":
		return "lit"
	case a == "Bind_param":
		return "bind"
	case a == "Asc_desc":
		return "ord"
	case a == "GetOpe":
		return "op"
	case a == "Source_name":
		return "src"
	case a == "Expr" || a == "GetGroupByExpr":
		return "expr"
	case a == "Name" || a == "Function_name":
		return ""
	case strings.HasSuffix(strings.ToLower(a), "_name"):
		return "name"
	}
	return ""
}

func tokens(kind string) []string {
	switch kind {
	case "str":
		return strToks
	case "lit":
		return litToks
	case "bind":
		return bindToks
	case "ord":
		return ordToks
	case "op":
		return opToks
	case "expr":
		return exprToks
	case "uint":
		return uintToks
	case "name":
		return nameToks
	case "src":
		return srcToks
	}
	return nil
}

// decoded lists the readings of a token that are right.
func decoded(kind, tok string) []string {
	unq := func(q string) (string, bool) {
		if len(tok) >= 2 && strings.HasPrefix(tok, q) && strings.HasSuffix(tok, q) {
			return strings.ReplaceAll(tok[1:len(tok)-1], q+q, q), true
		}
		return "", false
	}
	switch kind {
	case "str", "src":
		if s, ok := unq("'"); ok {
			return []string{s}
		}
	case "name", "expr":
		out := []string{tok}
		for _, q := range []string{"`", "\"", "'"} {
			if s, ok := unq(q); ok && (q != "'" || kind == "name") {
				out = append(out, s)
			}
		}
		return out
	}
	return []string{tok}
}

// textNodes lists the nodes whose texts t mentions.
func textNodes(ts ...*T) []*T {
	seen := map[int]bool{}
	out := map[int]*T{}
	var rec func(x *T)
	rec = func(x *T) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if x.op == OApp && x.name == "GetText" && len(x.args) == 1 {
			out[x.args[0].id] = x.args[0]
		}
		if x.op == OApp && x.name == "spec:from" {
			out[x.args[0].id] = x.args[0]
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var l []*T
	for _, n := range out {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// samples compares obs with exp for chosen texts of the nodes exp mentions.
func (r *Run) tokenCases(key, where string, obs, exp, pc *T) {
	e := r.e
	nodes := textNodes(exp)
	var known []*T
	rounds := 0
	for _, n := range nodes {
		if k := nodeKind(n); k != "" && len(tokens(k)) > 0 {
			known = append(known, n)
			rounds = max(rounds, len(tokens(k)))
		}
	}
	if len(known) == 0 {
		return
	}
	others := textNodes(obs, pc)
	for _, step := range []int{1, 0} {
		if step == 0 && len(known) < 2 {
			break
		}
		for k := 0; k < rounds; k++ {
			mo, mx := map[int]*T{}, map[int]*T{}
			raw := map[int]*T{}
			what := ""
			ord := map[string]int{}
			for _, n := range known {
				kind := nodeKind(n)
				toks := tokens(kind)
				tok := toks[(k+step*ord[kind]*3)%len(toks)]
				ord[kind]++
				what += " " + strconv.Quote(tok)
				raw[n.id] = e.str(tok)
				// the text of a literal is the text of its string
				if kind == "lit" {
					sl := e.acc(n, "String_literal")
					for _, s := range known {
						if s == sl && raw[s.id] != nil {
							raw[n.id] = e.ite(e.eq(sl, e.Nil), e.str(tok), raw[s.id])
						}
					}
				}
				t := e.text(n)
				mo[t.id] = raw[n.id]
				ds := decoded(kind, tok)
				switch {
				case kind == "uint":
					v := constant.MakeFromLiteral(tok, token.INT, 0)
					mx[e.specFrom(n).id] = e.constant(v, nil)
					mx[t.id] = e.str(tok)
				case len(ds) == 1 && kind != "lit":
					mx[t.id] = e.str(ds[0])
				case kind == "lit":
					mx[t.id] = raw[n.id]
				default:
					var as []*T
					for _, d := range ds {
						as = append(as, e.str(d))
					}
					mx[t.id] = e.app("spec:oneof", as...)
				}
			}
			for _, n := range others {
				if raw[n.id] != nil {
					continue
				}
				for _, x := range known {
					if e.textRel(n, x) == 1 {
						mo[e.text(n).id] = raw[x.id]
						break
					}
				}
			}
			m := &matcher{r: r, e: e, consts: true}
			p := e.sat(e.inst(pc, mo))
			if p == e.False {
				continue
			}
			m.diff(e.inst(obs, mo), e.inst(exp, mx), p)
			r.count("token_cases", 1)
			for _, d := range m.out {
				if d.definite {
					r.bad(key+" decoded", where, "for the texts%s: %s", clipS(what, 160), d.msg)
					return
				}
			}
		}
	}
}

func clipS(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return s
}

// constVal judges constants only.
func (m *matcher) constVal(a, b, g *T) {
	e := m.e
	if a.op == OIface && len(a.args) == 1 {
		a = a.args[0]
	}
	if a.op == OIte {
		m.diff(a, b, g)
		return
	}
	if a.op != OConst {
		return
	}
	fold := false
	if b.op == OApp && b.name == "spec:fold" {
		fold = true
		b = b.args[0]
	}
	opts := []*T{b}
	if b.op == OApp && b.name == "spec:oneof" {
		opts = b.args
	}
	for _, o := range opts {
		if o.op != OConst {
			return
		}
		if a == o || a.cv.Kind() == o.cv.Kind() && constant.Compare(a.cv, token.EQL, o.cv) {
			return
		}
		x, ok1 := a.isStr()
		y, ok2 := o.isStr()
		if ok1 && ok2 && (x == y || fold && strings.EqualFold(x, y)) {
			return
		}
	}
	m.add(e.definiteCase(g), "is %s instead of %s", clip(a), clip(opts[len(opts)-1]))
}
