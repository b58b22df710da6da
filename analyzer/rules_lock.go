package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const netPkg = modPath + "/sql/net"

// Lockset analysis: a forward dataflow over the SSA of every exported
// function of the guarded types, through their callees, with the set of held
// locks as the state. Objects are named by access paths from the roots of the
// entry point, so that a lock is matched with the fields of the same object.

type lockPath struct {
	root  string       // the object
	owner *types.Named // set when this is a field of the object
	field string
	fn    *ssa.Function // a function value
	free  []lockPath
	cell  *lockPath // what the variable of this address holds
}

func (p lockPath) String() string {
	if p.field != "" {
		return p.root + "." + p.field
	}
	return p.root
}

func topRoot(s string) string {
	if i := strings.IndexByte(s, '.'); i >= 0 {
		return s[:i]
	}
	return s
}

type heldLock struct {
	path string
	excl bool
	sec  int // critical section
}

// relLock names a lock relative to the object it lives in.
func relLock(lock, root string) string {
	t := topRoot(lock)
	if strings.HasPrefix(t, "g:") {
		return lock
	}
	if t == topRoot(root) {
		return "self" + lock[len(t):]
	}
	return ""
}

type guardRead struct {
	field string // owner.field
	top   string
	sec   int
}

type lockState struct {
	held   []heldLock
	defers []*ssa.Defer
	pub    map[string]bool // allocations that other goroutines may see
}

func (s *lockState) key() string {
	var b strings.Builder
	for _, h := range s.held {
		fmt.Fprintf(&b, "%s/%v/%d;", h.path, h.excl, h.sec)
	}
	b.WriteByte('|')
	for _, d := range s.defers {
		fmt.Fprintf(&b, "%d;", d.Pos())
	}
	b.WriteByte('|')
	var ps []string
	for p := range s.pub {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	b.WriteString(strings.Join(ps, ","))
	return b.String()
}

func (s *lockState) clone() *lockState {
	n := &lockState{held: append([]heldLock{}, s.held...), defers: append([]*ssa.Defer{}, s.defers...), pub: s.pub}
	return n
}

func (s *lockState) publish(root string) *lockState {
	t := topRoot(root)
	if !strings.HasPrefix(t, "new:") || s.pub[t] {
		return s
	}
	n := s.clone()
	n.pub = map[string]bool{t: true}
	for k := range s.pub {
		n.pub[k] = true
	}
	return n
}

type lockEvent struct {
	owner *types.Named
	field string
	write bool
	inner bool            // an element of the map or slice, not the field itself
	locks map[string]bool // relative lock -> exclusive
	pos   token.Pos
	fn    *ssa.Function
	entry string
	top   string
	sec   int
}

type lockAct struct {
	fn     *ssa.Function
	params []lockPath
	free   []lockPath
	ptaint []map[guardRead]bool
	up     *lockAct
	site   ssa.Instruction // call site in up
	depth  int
	id     string
	paths  map[ssa.Value]lockPath
	taint  map[ssa.Value]map[guardRead]bool
	rets   map[ssa.Value][]lockPath
	tries  map[ssa.Value]heldLock
	cdeps  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type lockAn struct {
	r        *Run
	classes  map[*types.Named]bool
	events   []lockEvent
	order    map[string]map[string]string
	entry    string
	sections int
	secIDs   map[string]int
	steps    int
	fns      map[*ssa.Function]bool
	capped   bool
}

func derefNamed(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func syncType(t types.Type) bool {
	n := derefNamed(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func (a *lockAn) where(pos token.Pos) string {
	p := a.r.p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, a.r.p.dir+"/"), p.Line)
}

// guardedClasses are the types whose methods are called concurrently.
func (r *Run) guardedClasses() map[*types.Named]bool {
	out := map[*types.Named]bool{}
	var ifs []*types.Interface
	if pk := r.p.byPath[netPkg]; pk != nil {
		for _, n := range []string{"Conn", "ConnManager"} {
			if o := pk.Types.Scope().Lookup(n); o != nil {
				if i, ok := o.Type().Underlying().(*types.Interface); ok {
					ifs = append(ifs, i)
				}
			} else {
				r.anchor("net." + n)
			}
		}
	} else {
		r.anchor("sql/net")
	}
	for _, pk := range r.p.pkgs {
		if pk.PkgPath == antlrPkg {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if syncType(st.Field(i).Type()) {
					out[nt] = true
				}
			}
			for _, i := range ifs {
				if types.Implements(types.NewPointer(nt), i) {
					out[nt] = true
				}
			}
		}
	}
	// parts of a guarded object
	for changed := true; changed; {
		changed = false
		for c := range out {
			st := c.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				n := derefNamed(st.Field(i).Type())
				if n == nil || out[n] || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
					continue
				}
				if _, ok := n.Underlying().(*types.Struct); ok {
					out[n] = true
					changed = true
				}
			}
		}
	}
	return out
}

func (a *lockAn) bad(key string, pos token.Pos, format string, args ...any) {
	a.r.bad(key, a.where(pos)+" (from "+a.entry+")", format, args...)
}

// --- values

func fieldOf(x ssa.Value, i int) (*types.Named, string, types.Type) {
	t := x.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, "", nil
	}
	return n, st.Field(i).Name(), st.Field(i).Type()
}

func (a *lockAn) path(ac *lockAct, v ssa.Value) lockPath {
	if p, ok := ac.paths[v]; ok {
		return p
	}
	ac.paths[v] = lockPath{root: ac.id + fmt.Sprintf("?%s", v.Name())}
	p := a.path1(ac, v)
	if p.root == "" && p.fn == nil {
		p.root = ac.id + fmt.Sprintf("?%s", v.Name())
	}
	switch v.(type) {
	case *ssa.Call, *ssa.Extract, *ssa.Phi:
		// may become known later
		delete(ac.paths, v)
	default:
		ac.paths[v] = p
	}
	return p
}

func (a *lockAn) path1(ac *lockAct, v ssa.Value) lockPath {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range ac.fn.Params {
			if p == v && i < len(ac.params) {
				return ac.params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range ac.fn.FreeVars {
			if p == v && i < len(ac.free) {
				return ac.free[i]
			}
		}
	case *ssa.Global:
		return lockPath{root: "g:" + v.String()}
	case *ssa.Function:
		return lockPath{root: "fn:" + v.String(), fn: v}
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		var free []lockPath
		for _, b := range v.Bindings {
			free = append(free, a.path(ac, b))
		}
		return lockPath{root: "fn:" + f.String(), fn: f, free: free}
	case *ssa.Alloc:
		p := lockPath{root: fmt.Sprintf("new:%s%s", ac.id, v.Name())}
		if _, ok := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
			if s := onlyStore(v); s != nil {
				c := a.path(ac, s)
				p.cell = &c
			}
		}
		return p
	case *ssa.MakeMap, *ssa.MakeSlice:
		return lockPath{root: fmt.Sprintf("new:%s%s", ac.id, v.Name())}
	case *ssa.FieldAddr:
		b := a.path(ac, v.X)
		o, f, _ := fieldOf(v.X, v.Field)
		return lockPath{root: b.String(), owner: o, field: f}
	case *ssa.Field:
		b := a.path(ac, v.X)
		o, f, _ := fieldOf(v.X, v.Field)
		return lockPath{root: b.String(), owner: o, field: f}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					return a.path(ac, s)
				}
				return lockPath{}
			}
			p := a.path(ac, v.X)
			if p.cell != nil {
				return *p.cell
			}
			return p
		}
	case *ssa.MakeInterface:
		return a.path(ac, v.X)
	case *ssa.ChangeInterface:
		return a.path(ac, v.X)
	case *ssa.ChangeType:
		return a.path(ac, v.X)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return a.path(ac, v.X)
		}
	case *ssa.Slice:
		return a.path(ac, v.X)
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			return a.path(ac, ta.X)
		}
		if rs, ok := ac.rets[v.Tuple]; ok && v.Index < len(rs) {
			return rs[v.Index]
		}
	case *ssa.Call:
		if rs, ok := ac.rets[v]; ok && len(rs) == 1 {
			return rs[0]
		}
	case *ssa.Phi:
		var p lockPath
		for i, e := range v.Edges {
			q := a.path(ac, e)
			if i == 0 {
				p = q
			} else if q.String() != p.String() {
				return lockPath{}
			}
		}
		return p
	}
	return lockPath{}
}

// onlyStore is the only value ever stored to a local variable.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if v != nil && v != s.Val {
				return nil
			}
			v = s.Val
		}
	}
	return v
}

func (a *lockAn) taintOf(ac *lockAct, v ssa.Value) map[guardRead]bool {
	if t, ok := ac.taint[v]; ok {
		return t
	}
	out := map[guardRead]bool{}
	ac.taint[v] = out
	add := func(m map[guardRead]bool) {
		for k := range m {
			out[k] = true
		}
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range ac.fn.Params {
			if p == v && i < len(ac.ptaint) {
				add(ac.ptaint[i])
			}
		}
		return out
	case *ssa.Call:
		for _, x := range v.Call.Args {
			if v.Call.StaticCallee() == nil || !a.r.p.inRepo(v.Call.StaticCallee()) {
				add(a.taintOf(ac, x))
			}
		}
	case ssa.Instruction:
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if al, ok := u.X.(*ssa.Alloc); ok {
				for _, rf := range *al.Referrers() {
					if s, ok := rf.(*ssa.Store); ok && s.Addr == al {
						add(a.taintOf(ac, s.Val))
					}
				}
			}
		}
		for _, op := range v.Operands(nil) {
			if *op != nil {
				add(a.taintOf(ac, *op))
			}
		}
	}
	delete(ac.taint, v) // operands may gain taint later
	return out
}

func (a *lockAn) mark(ac *lockAct, v ssa.Value, m map[guardRead]bool) {
	t := ac.taint[v]
	if t == nil {
		t = a.taintOf(ac, v)
		ac.taint[v] = t
	}
	for k := range m {
		t[k] = true
	}
}

// --- events

func (a *lockAn) fresh(st *lockState, root string) bool {
	t := topRoot(root)
	return strings.HasPrefix(t, "new:") && !st.pub[t]
}

func (a *lockAn) access(ac *lockAct, st *lockState, p lockPath, write, inner bool, pos token.Pos) {
	if p.owner == nil || !a.classes[p.owner] || p.field == "" || a.fresh(st, p.root) {
		return
	}
	ev := lockEvent{owner: p.owner, field: p.field, write: write, inner: inner, locks: map[string]bool{}, pos: pos, fn: ac.fn, entry: a.entry, top: topRoot(p.root), sec: a.sectionOf(st, p.root)}
	for _, h := range st.held {
		if r := relLock(h.path, p.root); r != "" {
			ev.locks[r] = ev.locks[r] || h.excl
		}
	}
	a.events = append(a.events, ev)
}

// sectionOf is the critical section in which the object is accessed.
func (a *lockAn) sectionOf(st *lockState, root string) int {
	for i := len(st.held) - 1; i >= 0; i-- {
		if relLock(st.held[i].path, root) != "" {
			return st.held[i].sec
		}
	}
	return 0
}

func (a *lockAn) guard(st *lockState, p lockPath) map[guardRead]bool {
	if p.owner == nil || !a.classes[p.owner] || a.fresh(st, p.root) {
		return nil
	}
	return map[guardRead]bool{{p.owner.Obj().Name() + "." + p.field, topRoot(p.root), a.sectionOf(st, p.root)}: true}
}

// atomic: a write must not rest on what an earlier critical section saw.
func (a *lockAn) atomic(ac *lockAct, st *lockState, in ssa.Instruction, p lockPath, val ssa.Value) {
	if p.owner == nil || !a.classes[p.owner] || a.fresh(st, p.root) {
		return
	}
	sec := a.sectionOf(st, p.root)
	if sec == 0 {
		return // reported as an unguarded write
	}
	f := p.owner.Obj().Name() + "." + p.field
	ctl := map[guardRead]bool{}
	blk := in.Block()
	for c := ac; c != nil; c = c.up {
		for b := range c.controls(blk) {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				for k := range a.taintOf(c, iff.Cond) {
					ctl[k] = true
				}
			}
		}
		if c.site == nil {
			break
		}
		blk = c.site.Block()
	}
	if os.Getenv("VERIF_LOCK") != "" {
		fmt.Println("ATOMIC", a.where(in.Pos()), f, sec, ctl)
	}
	check := func(m map[guardRead]bool, how string) {
		stale, again := false, false
		for k := range m {
			if k.field == f && k.top == topRoot(p.root) {
				if k.sec == sec {
					again = true
				} else {
					stale = true
				}
			}
		}
		if stale && !again {
			a.bad("atomic|"+ac.fn.String()+"|"+f, in.Pos(), "%s writes %s, %s what an earlier critical section read from it: the lock is released in between and the write is not rechecked", ac.fn, f, how)
		} else if stale || again {
			a.r.ok("atomic %s %s", ac.fn, f)
		}
	}
	check(ctl, "depending on")
	if val != nil {
		check(a.taintOf(ac, val), "computed from")
	}
}

// controls: the blocks that decide whether b is reached.
func (ac *lockAct) controls(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if ac.cdeps == nil {
		ac.cdeps = controlDeps(ac.fn)
	}
	out := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock)
	rec = func(x *ssa.BasicBlock) {
		for c := range ac.cdeps[x] {
			if !out[c] {
				out[c] = true
				rec(c)
			}
		}
	}
	rec(b)
	return out
}

func controlDeps(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	n := len(fn.Blocks)
	// pd[i][j]: j postdominates i
	pd := make([][]bool, n)
	for i, b := range fn.Blocks {
		pd[i] = make([]bool, n)
		for j := range pd[i] {
			pd[i][j] = len(b.Succs) > 0 || i == j
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				v := true
				for _, s := range b.Succs {
					v = v && pd[s.Index][j]
				}
				v = v || i == j
				if v != pd[i][j] {
					pd[i][j] = v
					ch = true
				}
			}
		}
	}
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for i, b := range fn.Blocks {
		if len(b.Succs) < 2 {
			continue
		}
		for _, s := range b.Succs {
			for j := 0; j < n; j++ {
				if pd[s.Index][j] && (!pd[i][j] || i == j) {
					x := fn.Blocks[j]
					if out[x] == nil {
						out[x] = map[*ssa.BasicBlock]bool{}
					}
					out[x][b] = true
				}
			}
		}
	}
	return out
}

// --- locks

func (a *lockAn) section(ac *lockAct, in ssa.Instruction) int {
	k := fmt.Sprintf("%s@%d", ac.id, in.Pos())
	if a.secIDs[k] == 0 {
		a.secIDs[k] = len(a.secIDs) + 1
	}
	return a.secIDs[k]
}

func (a *lockAn) acquire(ac *lockAct, st *lockState, lock string, excl bool, in ssa.Instruction) *lockState {
	n := st.clone()
	for _, h := range st.held {
		if h.path == lock {
			a.bad("relock|"+ac.fn.String()+"|"+lockName(lock), in.Pos(), "%s acquires %s while holding it: it blocks forever", ac.fn, lockName(lock))
			return n
		}
		x, y := lockName(h.path), lockName(lock)
		if a.order[x] == nil {
			a.order[x] = map[string]string{}
		}
		if a.order[x][y] == "" {
			a.order[x][y] = a.where(in.Pos())
		}
	}
	n.held = append(n.held, heldLock{lock, excl, a.section(ac, in)})
	return n
}

// lockName drops the instance from a lock path.
func lockName(l string) string {
	if i := strings.IndexByte(l, '.'); i >= 0 && !strings.HasPrefix(l, "g:") {
		t := l[:i]
		if j := strings.IndexByte(t, '('); j >= 0 {
			return strings.TrimRight(t[j+1:], ")") + l[i:]
		}
		return "?" + l[i:]
	}
	return l
}

func (a *lockAn) release(ac *lockAct, st *lockState, lock string, excl bool, in ssa.Instruction) *lockState {
	n := st.clone()
	for i := len(n.held) - 1; i >= 0; i-- {
		if n.held[i].path == lock {
			if n.held[i].excl != excl {
				a.bad("mode|"+ac.fn.String()+"|"+lockName(lock), in.Pos(), "%s releases %s in the wrong mode", ac.fn, lockName(lock))
			}
			n.held = append(n.held[:i], n.held[i+1:]...)
			return n
		}
	}
	a.bad("unlock|"+ac.fn.String()+"|"+lockName(lock), in.Pos(), "%s releases %s, which is not held there", ac.fn, lockName(lock))
	return n
}

type lockExit struct {
	st   *lockState
	rets []lockPath
	tnt  []map[guardRead]bool
}

// call applies a call to a state.
func (a *lockAn) call(ac *lockAct, st *lockState, in ssa.Instruction, c *ssa.CallCommon) []*lockState {
	val, _ := in.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(ac, st, in, b.Name(), c.Args)
		return []*lockState{st}
	}
	if f := c.StaticCallee(); f != nil {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" || f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == "sync" {
			recv := ""
			if len(c.Args) > 0 {
				recv = a.path(ac, c.Args[0]).String()
			}
			rt := ""
			if f.Signature.Recv() != nil {
				if n := derefNamed(f.Signature.Recv().Type()); n != nil {
					rt = n.Obj().Name()
				}
			}
			switch rt + "." + f.Name() {
			case "Mutex.Lock", "RWMutex.Lock":
				return []*lockState{a.acquire(ac, st, recv, true, in)}
			case "RWMutex.RLock":
				return []*lockState{a.acquire(ac, st, recv, false, in)}
			case "Mutex.Unlock", "RWMutex.Unlock":
				return []*lockState{a.release(ac, st, recv, true, in)}
			case "RWMutex.RUnlock":
				return []*lockState{a.release(ac, st, recv, false, in)}
			case "Mutex.TryLock", "RWMutex.TryLock":
				ac.tries[val] = heldLock{recv, true, a.section(ac, in)}
			case "RWMutex.TryRLock":
				ac.tries[val] = heldLock{recv, false, a.section(ac, in)}
			case "Once.Do":
				p := a.path(ac, c.Args[1])
				if p.fn != nil && p.fn.Blocks != nil {
					s := st.clone()
					s.held = append(s.held, heldLock{recv, true, a.section(ac, in)})
					var out []*lockState
					for _, x := range a.walk(p.fn, nil, nil, p.free, s, ac, in) {
						out = append(out, a.release(ac, x.st, recv, true, in))
					}
					return out
				}
			}
			return []*lockState{st}
		}
		if f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == "sync/atomic" {
			return []*lockState{st}
		}
	}
	// the lock methods of an interface (sync.Locker)
	if c.IsInvoke() && len(c.Args) == 0 {
		recv := a.path(ac, c.Value)
		n, _ := c.Value.Type().(*types.Named)
		if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			switch c.Method.Name() {
			case "Lock":
				return []*lockState{a.acquire(ac, st, recv.String(), true, in)}
			case "Unlock":
				return []*lockState{a.release(ac, st, recv.String(), true, in)}
			}
		}
	}
	fns, args, free := a.targets(ac, c)
	var repo []int
	for i, f := range fns {
		if f != nil && f.Blocks != nil && a.r.p.inRepo(f) {
			repo = append(repo, i)
		}
	}
	if len(repo) == 0 {
		// foreign code: it may read what it is given, and keep it
		for _, x := range c.Args {
			p := a.path(ac, x)
			if p.owner != nil && p.field != "" {
				switch x.Type().Underlying().(type) {
				case *types.Map, *types.Slice:
					a.access(ac, st, p, false, true, in.Pos())
					if val != nil {
						if _, ok := val.Type().Underlying().(*types.Signature); ok {
							ac.rets[val] = []lockPath{p} // an iterator over it
							a.mark(ac, val, a.guard(st, p))
						} else {
							a.mark(ac, val, a.guard(st, p))
						}
					}
				case *types.Signature:
					a.access(ac, st, p, false, true, in.Pos())
				case *types.Pointer:
					if fa, ok := x.(*ssa.FieldAddr); ok {
						if _, _, ft := fieldOf(fa.X, fa.Field); ft != nil && !syncType(ft) {
							a.access(ac, st, p, true, false, in.Pos())
						}
					}
				}
			}
			if cl := a.path(ac, x); cl.fn != nil && cl.fn.Blocks != nil && a.r.p.inRepo(cl.fn) {
				a.walk(cl.fn, nil, nil, cl.free, st, ac, in)
			}
		}
		return []*lockState{st}
	}
	var out []*lockState
	seen := map[string]bool{}
	var tnt []map[guardRead]bool
	for _, x := range args {
		if x == nil {
			tnt = append(tnt, nil)
			continue
		}
		tnt = append(tnt, a.taintOf(ac, x))
	}
	var ps []lockPath
	for _, x := range args {
		ps = append(ps, a.path(ac, x))
	}
	first := true
	for _, i := range repo {
		f := fns[i]
		fr := free[i]
		for _, x := range a.walk(f, ps, tnt, fr, st, ac, in) {
			if !seen[x.st.key()] {
				seen[x.st.key()] = true
				out = append(out, x.st)
			}
			if val != nil {
				if first {
					ac.rets[val] = x.rets
				} else {
					old := ac.rets[val]
					var nw []lockPath
					for k := range x.rets {
						if k < len(old) && old[k].String() == x.rets[k].String() {
							nw = append(nw, old[k])
						} else {
							nw = append(nw, lockPath{root: fmt.Sprintf("%s?%s.%d", ac.id, val.Name(), k)})
						}
					}
					ac.rets[val] = nw
				}
				first = false
				all := map[guardRead]bool{}
				for _, t := range x.tnt {
					for k := range t {
						all[k] = true
					}
				}
				a.mark(ac, val, all)
			}
		}
	}
	return out
}

func (a *lockAn) targets(ac *lockAct, c *ssa.CallCommon) (fns []*ssa.Function, args []ssa.Value, free [][]lockPath) {
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, nt := range a.sortedClasses() {
			pt := types.NewPointer(nt)
			if it != nil && types.Implements(pt, it) {
				if f := a.r.p.method(pt, c.Method); f != nil && f.Synthetic == "" {
					fns = append(fns, f)
					free = append(free, nil)
				}
			}
		}
		return
	}
	args = c.Args
	p := a.path(ac, c.Value)
	if p.fn != nil {
		return []*ssa.Function{p.fn}, args, [][]lockPath{p.free}
	}
	// any function of the repository with this signature whose address is taken
	sig := c.Signature()
	for _, f := range a.r.p.allFns {
		if f.Synthetic == "" && (f.Parent() != nil || f.Signature.Recv() == nil) && types.Identical(f.Signature, sig) && takesClass(a, sig) {
			fns = append(fns, f)
			free = append(free, nil)
		}
	}
	return
}

// takesClass: one of the parameters is a guarded object.
func takesClass(a *lockAn, sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if n := derefNamed(sig.Params().At(i).Type()); n != nil && a.classes[n] {
			return true
		}
	}
	return false
}

func (a *lockAn) sortedClasses() []*types.Named {
	var out []*types.Named
	for c := range a.classes {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (a *lockAn) builtin(ac *lockAct, st *lockState, in ssa.Instruction, name string, args []ssa.Value) {
	val, _ := in.(ssa.Value)
	rd := func(x ssa.Value) {
		p := a.path(ac, x)
		a.access(ac, st, p, false, true, in.Pos())
		if val != nil {
			a.mark(ac, val, a.guard(st, p))
		}
	}
	switch name {
	case "len", "cap":
		rd(args[0])
	case "append":
		rd(args[0])
		if len(args) > 1 {
			rd(args[1])
		}
	case "delete", "clear":
		a.access(ac, st, a.path(ac, args[0]), true, true, in.Pos())
	case "copy":
		a.access(ac, st, a.path(ac, args[0]), true, true, in.Pos())
		p := a.path(ac, args[1])
		a.access(ac, st, p, false, true, in.Pos())
		a.mark(ac, args[0], a.guard(st, p))
		a.mark(ac, args[0], a.taintOf(ac, args[1]))
	}
}

// walk analyses a function from a state and yields the states at its exits.
func (a *lockAn) walk(fn *ssa.Function, params []lockPath, ptaint []map[guardRead]bool, free []lockPath, st *lockState, up *lockAct, site ssa.Instruction) []lockExit {
	depth := 0
	id := ""
	if up != nil {
		depth = up.depth + 1
		id = fmt.Sprintf("%s%d>", up.id, site.Pos())
		for c := up; c != nil; c = c.up {
			if c.fn == fn {
				return []lockExit{{st: st}}
			}
		}
	}
	if depth > 10 || a.steps > 400000 {
		a.capped = true
		return []lockExit{{st: st}}
	}
	a.fns[fn] = true
	ac := &lockAct{fn: fn, params: params, ptaint: ptaint, free: free, up: up, site: site, depth: depth, id: id,
		paths: map[ssa.Value]lockPath{}, taint: map[ssa.Value]map[guardRead]bool{}, rets: map[ssa.Value][]lockPath{}, tries: map[ssa.Value]heldLock{}}
	if len(fn.Blocks) == 0 {
		return []lockExit{{st: st}}
	}
	start := st.clone()
	start.defers = nil
	type item struct {
		b  *ssa.BasicBlock
		st *lockState
	}
	work := []item{{fn.Blocks[0], start}}
	seen := map[string]bool{}
	var exits []lockExit
	exitSeen := map[string]int{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d|%s", it.b.Index, it.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		states := []*lockState{it.st}
		for _, in := range it.b.Instrs {
			a.steps++
			var next []*lockState
			for _, s := range states {
				if ret, ok := in.(*ssa.Return); ok {
					var ps []lockPath
					var ts []map[guardRead]bool
					for _, v := range ret.Results {
						p := a.path(ac, v)
						ps = append(ps, p)
						ts = append(ts, a.taintOf(ac, v))
					}
					x := s.clone()
					x.defers = st.defers
					if i, ok := exitSeen[x.key()]; ok {
						// merge what the same state returns
						for j := range ps {
							if j < len(exits[i].rets) && exits[i].rets[j].String() != ps[j].String() {
								exits[i].rets[j] = lockPath{root: fmt.Sprintf("%sret%d", ac.id, j)}
							}
							for g := range ts[j] {
								exits[i].tnt[j][g] = true
							}
						}
					} else {
						exitSeen[x.key()] = len(exits)
						exits = append(exits, lockExit{x, ps, ts})
					}
					if up == nil {
						a.leak(ac, s, ret, ps)
					}
					continue
				}
				next = append(next, a.step(ac, s, in)...)
			}
			states = next
			if len(states) > 64 {
				a.capped = true
				states = states[:64]
			}
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, s := range states {
			if iff, ok := last.(*ssa.If); ok {
				cond, neg := iff.Cond, false
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, neg = u.X, !neg
				}
				for i, b := range it.b.Succs {
					n := s
					if h, ok := ac.tries[cond]; ok && (i == 0) != neg {
						n = s.clone()
						n.held = append(n.held, h)
					}
					work = append(work, item{b, n})
				}
				continue
			}
			for _, b := range it.b.Succs {
				work = append(work, item{b, s})
			}
		}
	}
	return exits
}

// leak: an internal map handed out is read and written without the lock.
func (a *lockAn) leak(ac *lockAct, st *lockState, ret *ssa.Return, ps []lockPath) {
	for i, v := range ret.Results {
		switch v.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			p := ps[i]
			if p.owner == nil || !a.classes[p.owner] || a.fresh(st, p.root) {
				continue
			}
			a.events = append(a.events, lockEvent{owner: p.owner, field: p.field, inner: true, locks: map[string]bool{}, pos: ret.Pos(), fn: ac.fn, entry: a.entry})
		}
	}
}

func (a *lockAn) step(ac *lockAct, st *lockState, in ssa.Instruction) []*lockState {
	one := func() []*lockState { return []*lockState{st} }
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if fa, ok := in.X.(*ssa.FieldAddr); ok {
				if _, _, ft := fieldOf(fa.X, fa.Field); ft != nil && !syncType(ft) {
					p := a.path(ac, fa)
					a.access(ac, st, p, false, false, in.Pos())
					a.mark(ac, in, a.guard(st, p))
				}
			}
			if ia, ok := in.X.(*ssa.IndexAddr); ok {
				p := a.path(ac, ia.X)
				a.access(ac, st, p, false, true, in.Pos())
				a.mark(ac, in, a.guard(st, p))
			}
		}
	case *ssa.Store:
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			if _, _, ft := fieldOf(fa.X, fa.Field); ft != nil && !(syncType(ft)) {
				p := a.path(ac, fa)
				a.access(ac, st, p, true, false, in.Pos())
				a.atomic(ac, st, in, p, in.Val)
				if !a.fresh(st, p.root) {
					st = st.publish(a.path(ac, in.Val).String())
				}
			}
		} else if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			p := a.path(ac, ia.X)
			a.access(ac, st, p, true, true, in.Pos())
			a.atomic(ac, st, in, p, in.Val)
			a.mark(ac, ia.X, a.taintOf(ac, in.Val))
		} else if _, ok := in.Addr.(*ssa.Global); ok {
			st = st.publish(a.path(ac, in.Val).String())
		}
	case *ssa.MapUpdate:
		p := a.path(ac, in.Map)
		a.access(ac, st, p, true, true, in.Pos())
		a.atomic(ac, st, in, p, in.Value)
		if !a.fresh(st, p.root) {
			st = st.publish(a.path(ac, in.Value).String())
		}
	case *ssa.Lookup:
		p := a.path(ac, in.X)
		a.access(ac, st, p, false, true, in.Pos())
		a.mark(ac, in, a.guard(st, p))
	case *ssa.Range:
		p := a.path(ac, in.X)
		a.access(ac, st, p, false, true, in.Pos())
		a.mark(ac, in, a.guard(st, p))
	case *ssa.Next:
		if rg, ok := in.Iter.(*ssa.Range); ok {
			a.access(ac, st, a.path(ac, rg.X), false, true, rg.Pos())
			a.mark(ac, in, a.taintOf(ac, rg))
		}
	case *ssa.Send:
		st = st.publish(a.path(ac, in.X).String())
	case *ssa.Go:
		for _, x := range in.Call.Args {
			st = st.publish(a.path(ac, x).String())
		}
		if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				st = st.publish(a.path(ac, b).String())
				if al, ok := b.(*ssa.Alloc); ok {
					if v := onlyStore(al); v != nil {
						st = st.publish(a.path(ac, v).String())
					}
				}
			}
		}
		g := st.clone()
		g.held = nil
		for _, x := range a.goCall(ac, g, in) {
			a.heldAtExit(ac, x, in.Pos())
		}
	case *ssa.Defer:
		for _, d := range st.defers {
			if d == in {
				return one() // in a loop
			}
		}
		n := st.clone()
		n.defers = append(n.defers, in)
		return []*lockState{n}
	case *ssa.RunDefers:
		states := []*lockState{st}
		ds := st.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*lockState
			for _, s := range states {
				next = append(next, a.call(ac, s, ds[i], &ds[i].Call)...)
			}
			states = next
		}
		var out []*lockState
		for _, s := range states {
			n := s.clone()
			n.defers = nil
			out = append(out, n)
		}
		return out
	case *ssa.Call:
		return a.call(ac, st, in, &in.Call)
	}
	return one()
}

func (a *lockAn) goCall(ac *lockAct, st *lockState, in *ssa.Go) []*lockState {
	return a.call(ac, st, in, &in.Call)
}

func (a *lockAn) heldAtExit(ac *lockAct, st *lockState, pos token.Pos) {
	for _, h := range st.held {
		a.bad("held|"+ac.fn.String()+"|"+lockName(h.path), pos, "%s returns while holding %s: every later caller blocks", ac.fn, lockName(h.path))
	}
}

func init() {
	register("C21", func(r *Run) {
		r.rule("lockset dataflow over every exported method of the connection types and of every type with a lock, through helpers, closures, defers and interface calls: each field that is written after construction is accessed under one common lock of its object (exclusive for writes), every lock is released on every path and never acquired twice, locks are ordered, and no write rests on what an earlier critical section read")
		a := &lockAn{r: r, classes: r.guardedClasses(), order: map[string]map[string]string{}, secIDs: map[string]int{}, fns: map[*ssa.Function]bool{}}
		entries := 0
		pkgs := map[string]bool{}
		for _, c := range a.sortedClasses() {
			pkgs[c.Obj().Pkg().Path()] = true
		}
		for _, f := range r.p.allFns {
			if f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || !pkgs[fnPkgPath(f)] {
				continue
			}
			var ps []lockPath
			recvIsClass := false
			for i, p := range f.Params {
				n := ""
				if t := derefNamed(p.Type()); t != nil {
					n = t.Obj().Name()
				}
				ps = append(ps, lockPath{root: fmt.Sprintf("p%d(%s)", i, n)})
				if i == 0 && f.Signature.Recv() != nil {
					if t := derefNamed(p.Type()); t != nil && a.classes[t] {
						recvIsClass = true
					}
				}
			}
			if f.Signature.Recv() != nil && !recvIsClass || strings.HasSuffix(strings.ToLower(f.Name()), "lock") {
				continue // lock methods are judged where they are used
			}
			entries++
			a.entry = strings.TrimPrefix(f.String(), modPath+"/")
			for _, x := range a.walk(f, ps, nil, nil, &lockState{}, nil, nil) {
				a.heldAtExit(&lockAct{fn: f}, x.st, f.Pos())
				if len(x.st.held) == 0 {
					r.ok("%s releases its locks", a.entry)
				}
			}
		}
		r.count("entry points", entries)
		r.count("functions", len(a.fns))
		r.count("accesses to guarded fields", len(a.events))
		// fields
		type fk struct {
			o *types.Named
			f string
		}
		by := map[fk][]lockEvent{}
		var keys []fk
		for _, ev := range a.events {
			k := fk{ev.owner, ev.field}
			if by[k] == nil {
				keys = append(keys, k)
			}
			by[k] = append(by[k], ev)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].o.String()+keys[i].f < keys[j].o.String()+keys[j].f })
		for _, k := range keys {
			evs := by[k]
			field, inner := false, false
			for _, e := range evs {
				if e.write && e.inner {
					inner = true
				} else if e.write {
					field = true
				}
			}
			name := k.o.Obj().Name() + "." + k.f
			if !field && !inner {
				r.ok("%s is never written after construction", name)
				continue
			}
			votes := map[string]int{}
			for _, e := range evs {
				for l, x := range e.locks {
					if x || !e.write {
						votes[l]++
					}
				}
			}
			best := ""
			for l := range votes {
				if best == "" || votes[l] > votes[best] || votes[l] == votes[best] && l < best {
					best = l
				}
			}
			for _, e := range evs {
				if e.inner && !inner && !e.write {
					continue // the elements are never changed in place
				}
				x, ok := e.locks[best]
				what := "reads"
				if e.write {
					what = "writes"
				}
				if best != "" && ok && (x || !e.write) {
					r.ok("%s %s %s under %s", e.fn, what, name, best)
					continue
				}
				a.entry = e.entry
				how := "without a lock"
				if ok {
					how = "holding its lock for reading only"
				}
				a.bad("race|"+e.fn.String()+"|"+name+"|"+what, e.pos, "%s %s %s %s, while other goroutines write it", e.fn, what, name, how)
			}
		}
		a.coupled()
		// lock order
		var ls []string
		for l := range a.order {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, x := range ls {
			seen := map[string]bool{}
			var reach func(y string) bool
			reach = func(y string) bool {
				if y == x {
					return true
				}
				if seen[y] {
					return false
				}
				seen[y] = true
				for z := range a.order[y] {
					if reach(z) {
						return true
					}
				}
				return false
			}
			for y, w := range a.order[x] {
				if y == x {
					continue // locks of two objects of one type
				}
				if reach(y) {
					r.bad("order|"+x+"|"+y, w, "%s is acquired while holding %s, and elsewhere the other way round: two goroutines can block each other", y, x)
				} else {
					r.ok("order %s before %s", x, y)
				}
			}
		}
		if a.capped {
			r.unknown("the lockset analysis was cut short")
		}
	})
}

// coupled: fields that one operation writes in one critical section (the two
// indexes of the connection manager) are never written in separate ones.
func (a *lockAn) coupled() {
	type ent struct {
		entry, top string
		cls        *types.Named
	}
	secs := map[ent]map[int]map[string]lockEvent{}
	var keys []ent
	for _, ev := range a.events {
		if !ev.write || ev.sec == 0 {
			continue
		}
		k := ent{ev.entry, ev.top, ev.owner}
		if secs[k] == nil {
			secs[k] = map[int]map[string]lockEvent{}
			keys = append(keys, k)
		}
		if secs[k][ev.sec] == nil {
			secs[k][ev.sec] = map[string]lockEvent{}
		}
		secs[k][ev.sec][ev.field] = ev
	}
	type pair struct {
		cls  *types.Named
		f, g string
	}
	together := map[pair]string{}
	for _, k := range keys {
		for _, m := range secs[k] {
			for f := range m {
				for g := range m {
					if f < g {
						together[pair{k.cls, f, g}] = k.entry
					}
				}
			}
		}
	}
	var pairs []pair
	for p := range together {
		pairs = append(pairs, p)
	}
	sort.Slice(pairs, func(i, j int) bool {
		return pairs[i].cls.String()+pairs[i].f+" "+pairs[i].g < pairs[j].cls.String()+pairs[j].f+" "+pairs[j].g
	})
	for _, p := range pairs {
		for _, k := range keys {
			if k.cls != p.cls {
				continue
			}
			var f, g *lockEvent
			both := false
			for _, m := range secs[k] {
				x, ok1 := m[p.f]
				y, ok2 := m[p.g]
				both = both || ok1 && ok2
				if ok1 {
					f = &x
				}
				if ok2 {
					g = &y
				}
			}
			if f == nil || g == nil {
				continue
			}
			if both {
				a.r.ok("%s writes %s and %s of %s together", k.entry, p.f, p.g, p.cls.Obj().Name())
				continue
			}
			a.entry = k.entry
			a.bad("coupled|"+k.entry+"|"+p.cls.Obj().Name()+"."+p.f+"+"+p.g, g.pos, "%s writes %s and %s in two critical sections: others see one without the other, which %s writes together", k.entry, p.f, p.g, together[p])
		}
	}
}
