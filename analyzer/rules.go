package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Finding is a definite violation of a property at a construct.
type Finding struct {
	Prop  string `json:"property"`
	Key   string `json:"key"` // stable, semantic identity
	Where string `json:"where"`
	Msg   string `json:"message"`
}

// Run is one analysis run for one property.
type Run struct {
	prop      string
	p         *Program
	e         *E
	pm        *ParseModel
	findings  []Finding
	seen      map[string]bool
	obl       int // obligations generated
	decided   int
	undecided []string
	analysed  map[string]int
	rules     []string
	assume    []string
	samples   []string
	stopped   bool
	limit     time.Duration
}

func (r *Run) fail(key, where, format string, a ...any) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.findings = append(r.findings, Finding{r.prop, printable(key), where, printable(fmt.Sprintf(format, a...))})
}

// printable is s on one line, without control characters.
func printable(s string) string {
	return strings.Map(func(c rune) rune {
		if c < ' ' {
			return '.'
		}
		return c
	}, s)
}

// ok counts a discharged obligation.
func (r *Run) ok(format string, a ...any) {
	r.obl++
	r.decided++
	if len(r.samples) < 40 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}

func (r *Run) bad(key, where, format string, a ...any) {
	r.obl++
	r.decided++
	r.fail(key, where, format, a...)
}

func (r *Run) unknown(format string, a ...any) {
	r.obl++
	s := fmt.Sprintf(format, a...)
	s = strings.ToValidUTF8(clipS(s, 300), "?")
	r.undecided = append(r.undecided, s)
	if os.Getenv("VERIF_UND") != "" {
		fmt.Println("UNDECIDED", s)
	}
}

// expect is a boolean obligation.
func (r *Run) expect(cond bool, key, where, format string, a ...any) {
	if cond {
		r.ok("%s", key)
	} else {
		r.bad(key, where, format, a...)
	}
}

func (r *Run) count(what string, n int) { r.analysed[what] += n }

func (r *Run) rule(s string) { r.rules = append(r.rules, s) }

func (r *Run) note(s string) { r.assume = append(r.assume, s) }

// anchor reports a missing public entry point.
func (r *Run) anchor(name string) {
	r.bad("anchor|"+name, name, "public entry point %s is missing: the property has lost what it speaks about", name)
}

type known struct {
	Status string `json:"status"` // "known" or "fixed"
	Prop   string `json:"property"`
	Key    string `json:"key"`
	Commit string `json:"commit,omitempty"`
	What   string `json:"what"`
}

func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var ks []known
	for i, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, fmt.Errorf("%s:%d: %v", path, i+1, err)
		}
		ks = append(ks, k)
	}
	return ks, nil
}

type checkFn func(r *Run)

var checks = map[string]checkFn{}

func register(prop string, f checkFn) { checks[prop] = f }

func runProperty(root, repo, prop, tier string, seed int) int {
	start := time.Now()
	f := checks[prop]
	if f == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", prop)
		return 2
	}
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintf(os.Stderr, "cannot load %s: %v\n", repo, err)
		return 2
	}
	r := newRun(p, prop)
	r.guarded(f)
	if !r.fresh(root) {
		r.peels(f, tier)
	}
	return r.finish(root, tier, seed, start)
}

// fresh reports a violation that is not a known finding.
func (r *Run) fresh(root string) bool {
	ks, _ := loadKnown(filepath.Join(root, "known_findings.jsonl"))
	for _, f := range r.findings {
		hit := false
		for _, k := range ks {
			if k.Prop == f.Prop && k.Key == f.Key && k.Status == "known" {
				hit = true
			}
		}
		if !hit {
			return true
		}
	}
	return false
}

// peels repeats a rule with the lists whose loops carry state in no closed form
// instantiated with exactly two elements, when the general run left obligations
// open (or always, in the thorough tier). A mismatch found there is definite.
func (r *Run) peels(f checkFn, tier string) {
	always := tier == "thorough" || r.prop == "C01"
	if r.stopped || len(r.undecided) == 0 && !always {
		return
	}
	var keys []string
	for k := range r.e.folds {
		if k != "parse.AllSql_stmt_list" && k != "sql_stmt_list.AllSql_stmt" {
			keys = append(keys, k)
		}
	}
	if r.prop == "C01" && tier != "thorough" {
		keys = nil
		for k := range r.e.soft {
			if k != "parse.AllSql_stmt_list" && k != "sql_stmt_list.AllSql_stmt" {
				keys = append(keys, k)
			}
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return
	}
	type inst struct {
		keys []string
		mode string
	}
	sets := []inst{{keys, ""}}
	if len(keys) > 1 {
		for _, k := range keys {
			sets = append(sets, inst{[]string{k}, ""})
		}
		sets = append(sets, inst{keys, "ragged"})
	} else {
		sets = append(sets, inst{keys, "long"})
	}
	if r.prop == "C01" && tier != "thorough" {
		sets = nil
		for _, k := range keys {
			sets = append(sets, inst{[]string{k}, ""})
		}
	}
	open := map[string]bool{}
	for _, u := range r.undecided {
		open[undecidedKey(u)] = true
	}
	budget := time.Now().Add(240 * time.Second)
	for _, in := range sets {
		ks := in.keys
		if time.Now().After(budget) {
			break
		}
		if in.mode == "" && len(open) == 0 && !always {
			continue
		}
		q := newRun(r.p, r.prop)
		q.limit = time.Until(budget)
		for _, k := range ks {
			q.e.peel[k] = true
		}
		q.e.peelMode = in.mode
		size := map[string]string{"": "two elements", "long": "five elements", "ragged": "two elements and one"}[in.mode]
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("PEEL", ks, "for", r.undecided)
		}
		q.guarded(f)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("STILL", q.undecided)
		}
		r.count("list_instantiations", 1)
		still := map[string]bool{}
		for _, u := range q.undecided {
			still[undecidedKey(u)] = true
		}
		for _, fd := range q.findings {
			r.fail(fd.Key, fd.Where, "%s (lists %s of %s)", fd.Msg, strings.Join(ks, ", "), size)
		}
		if !q.stopped {
			for k := range open {
				if !still[k] && q.obl == r.obl {
					delete(open, k)
					r.count("decided_for_two_elements", 1)
				}
			}
		} else {
			break
		}
	}
	r.p.eng = r.e
}

func undecidedKey(u string) string {
	if i := strings.Index(u, ": "); i > 0 {
		return u[:i]
	}
	return u
}

// guarded runs a rule; an analysis that fails or exceeds its budget leaves its
// remaining obligations undecided.
func (r *Run) guarded(f checkFn) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					debug.PrintStack()
				}
				done <- fmt.Sprintf("the analysis stopped: %v", x)
				return
			}
			done <- ""
		}()
		f(r)
	}()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	if r.limit == 0 {
		r.limit = 500 * time.Second
	}
	limit := time.After(r.limit)
	for {
		select {
		case m := <-done:
			if m != "" {
				r.unknown("%s", m)
			}
			return
		case <-limit:
			r.stopped = true
			r.unknown("the analysis exceeded its time budget")
			return
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 12<<30 {
				r.stopped = true
				r.unknown("the analysis exceeded its memory budget")
				return
			}
		}
	}
}

func newRun(p *Program, prop string) *Run {
	e := newE(p)
	p.eng = e
	e.initBase()
	return &Run{prop: prop, p: p, e: e, seen: map[string]bool{}, analysed: map[string]int{}}
}

func (r *Run) finish(root, tier string, seed int, start time.Time) int {
	ks, err := loadKnown(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sort.SliceStable(r.findings, func(i, j int) bool { return r.findings[i].Key < r.findings[j].Key })
	var fresh, old []Finding
	for _, f := range r.findings {
		hit := false
		for _, k := range ks {
			if k.Prop == f.Prop && k.Key == f.Key && k.Status == "known" {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s] %s\n", f.Prop, k.What, f.Where, f.Key)
			}
		}
		if hit {
			old = append(old, f)
		} else {
			fresh = append(fresh, f)
		}
	}
	ev := filepath.Join(root, "evidence")
	os.MkdirAll(ev, 0o755)
	fns := 0
	if r.stopped { // the rule may still be running: take a snapshot only
		r.e = newE(r.p)
	}
	for fn := range r.e.visited {
		if r.p.inRepo(fn) {
			fns++
		}
	}
	r.count("functions_evaluated", fns)
	r.count("packages", len(r.p.pkgs))
	cov := map[string]any{
		"explanation":           fmt.Sprintf("%d obligations generated from /repo's current source, %d decided, %d undecided, %d violated (%d listed as known findings). Rules: %s", r.obl, r.decided, len(r.undecided), len(r.findings), len(old), strings.Join(r.rules, " | ")),
		"obligations":           r.obl,
		"obligations_decided":   r.decided,
		"obligations_undecided": len(r.undecided),
		"known_findings":        len(old),
		"analysed":              r.analysed,
		"sample_obligations":    r.samples,
		"undecided":             r.undecided,
	}
	lvl := "other"
	out := map[string]any{
		"property": r.prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
		"assumptions": append([]string{"the Go type checker and the SSA construction of golang.org/x/tools are right", "unmodelled external calls are opaque values of their arguments"}, r.assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(filepath.Join(ev, r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s obligations=%d undecided=%d wall=%.1fs\n", r.prop, r.obl, len(r.undecided), time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(ev, r.prop+".violation.txt")
	var sb strings.Builder
	for _, f := range fresh {
		fmt.Fprintf(&sb, "%s\n  at   %s\n  why  %s\n", f.Key, f.Where, f.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return 1
}
