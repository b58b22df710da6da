package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ParseModel is the abstract result of parsing an arbitrary query string.
type ParseModel struct {
	e       *E
	st      *State
	query   *T
	parser  *T
	parserV *T // *Parser value
	stmts   *T
	err     *T
	list    *T // content of the statement list
	stmt    *T // generic sql_stmt term
	ok      *T // success condition
}

func (e *E) anchorParse() (ctor, parse *ssa.Function, err error) {
	ctor = e.prog.fn("sql/parser/sqlite", "NewParser")
	if ctor == nil {
		return nil, nil, fmt.Errorf("sql/parser/sqlite.NewParser not found")
	}
	parse = e.prog.methodNamed(ctor.Signature.Results().At(0).Type(), "ParseString")
	if parse == nil {
		return nil, nil, fmt.Errorf("ParseString not found on the SQLite parser")
	}
	return ctor, parse, nil
}

func (e *E) modelParse() (*ParseModel, error) {
	ctor, parse, err := e.anchorParse()
	if err != nil {
		return nil, err
	}
	m := &ParseModel{e: e}
	st := e.newState()
	m.parserV = e.callFunc(st, ctor, nil, nil, 0)
	m.query = e.sym("query", types.Typ[types.String])
	res := e.callFunc(st, parse, []*T{m.parserV, m.query}, nil, 0)
	m.st = st
	m.stmts = e.extract(res, 0)
	m.err = e.extract(res, 1)
	m.ok = e.eq(m.err, e.Nil)
	m.list = e.contentOf(st, e.restrict(m.stmts, m.ok))
	return m, nil
}

// view evaluates an access path on a value in state st. Steps:
//
//	M()   call zero-argument method M     #i   component i of a tuple
//	[]    map over a sequence             *    dynamic value of an interface
func (e *E) view(st *State, t types.Type, v *T, path string) *T {
	path = strings.TrimPrefix(path, ".")
	if path == "" {
		return e.freeze(st, v)
	}
	if strings.HasPrefix(path, "[]") {
		rest := path[2:]
		et := types.Type(types.Typ[types.Invalid])
		if s, ok := t.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		c := e.contentOf(st, e.restrict(v, st.pc))
		return e.viewSeq(st, et, c, rest)
	}
	if path[0] == '#' {
		i := int(path[1] - '0')
		tt := t
		if tp, ok := t.(*types.Tuple); ok && i < tp.Len() {
			tt = tp.At(i).Type()
		}
		return e.view(st, tt, e.extract(v, i), path[2:])
	}
	k := strings.Index(path, "(")
	name := path[:k]
	end := strings.Index(path, ")")
	var args []*T
	if a := path[k+1 : end]; a != "" {
		for _, x := range strings.Split(a, ",") {
			args = append(args, e.sym("arg:"+x, types.Typ[types.String]))
		}
	}
	rest := path[end+1:]
	r, rt := e.callMethod(st, t, v, name, args...)
	return e.view(st, rt, r, rest)
}

func (e *E) viewSeq(st *State, et types.Type, c *T, rest string) *T {
	var ps []*T
	for _, p := range c.args {
		g := e.restrict(p.args[0], st.pc)
		if g == e.False {
			continue
		}
		s := st.with(e.and(st.pc, p.args[0]))
		if s.pc == e.False {
			continue
		}
		switch p.op {
		case OElem:
			ps = append(ps, e.elem(g, e.restrictDeep(e.view(s, et, p.args[1], rest), s.pc)))
		case OSpread:
			d := p.args[1]
			ev := e.elemVar(d)
			e.noteType(ev, et)
			ps = append(ps, e.loopPart(g, d, e.seq(e.elem(e.True, e.view(s, et, ev, rest)))))
		case OLoop:
			s.pc = e.and(s.pc, e.instFacts(s.pc, p.args[1]))
			ps = append(ps, e.loopPart(g, p.args[1], e.viewSeq(s, et, p.args[2], rest)))
		default:
			ps = append(ps, e.mk(&T{op: p.op, args: append([]*T{g}, p.args[1:]...)}))
		}
	}
	return e.seq(ps...)
}

// callMethod calls a method by name on a value of static type t.
func (e *E) callMethod(st *State, t types.Type, v *T, name string, args ...*T) (*T, types.Type) {
	var rt types.Type = types.Typ[types.Invalid]
	setRT := func(sig *types.Signature) {
		switch sig.Results().Len() {
		case 0:
		case 1:
			rt = sig.Results().At(0).Type()
		default:
			rt = sig.Results()
		}
	}
	v = e.restrict(v, st.pc)
	if t != nil {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			m := e.prog.methodNamed(t, name)
			if m == nil {
				return e.top("no-method:" + name), rt
			}
			setRT(m.Signature)
			return e.callFunc(st, m, append([]*T{v}, args...), nil, 0), rt
		}
	}
	missing := false
	r := e.overLeaves(st, v, func(s *State, x *T) *T {
		switch x.op {
		case OIface:
			m := e.prog.methodNamed(x.typ, name)
			if m == nil {
				missing = true
				return e.top("no-method:" + name)
			}
			setRT(m.Signature)
			return e.callFunc(s, m, append([]*T{x.args[0]}, args...), nil, 0)
		case ONil:
			return e.sym("nil."+name, nil)
		}
		if name == "Error" && x.op == OApp && (x.name == "wrap" || x.name == "errors.New") {
			rt = types.Typ[types.String]
			return x.args[0]
		}
		if t != nil {
			if o, _, _ := types.LookupFieldOrMethod(t, true, nil, name); o != nil {
				if f, ok := o.(*types.Func); ok {
					sig := f.Type().(*types.Signature)
					setRT(sig)
					return e.opaqueCall(s, "call:"+name, append([]*T{x}, args...), sig.Results(), 0)
				}
			}
		}
		return e.top("view:"+name, x)
	})
	_ = missing
	return r, rt
}

// stmtElems flattens the statement list into guarded statement values.
type stmtElem struct {
	doms []*T
	g    *T
	v    *T
}

func (e *E) flatten(seq *T) []stmtElem {
	var out []stmtElem
	var rec func(seq *T, doms []*T, g *T)
	rec = func(seq *T, doms []*T, g *T) {
		if seq.op != OSeq {
			out = append(out, stmtElem{append(append([]*T{}, doms...), seq), g, e.top("spread", seq)})
			return
		}
		for _, p := range seq.args {
			gg := e.and(g, p.args[0])
			if gg == e.False {
				continue
			}
			switch p.op {
			case OElem:
				out = append(out, stmtElem{doms, gg, p.args[1]})
			case OLoop:
				rec(p.args[2], append(append([]*T{}, doms...), p.args[1]), gg)
			case OSpread:
				out = append(out, stmtElem{append(append([]*T{}, doms...), p.args[1]), gg, e.elemVar(p.args[1])})
			default:
				out = append(out, stmtElem{doms, gg, e.top("part", p)})
			}
		}
	}
	rec(seq, nil, e.True)
	return out
}
