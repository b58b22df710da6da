package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	prop := flag.String("property", "", "property to decide, or all")
	repo := flag.String("repo", "/repo", "repository")
	root := flag.String("root", "/verif", "verification directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.Bool("dump", false, "print observed terms: KIND PATH...")
	flag.Parse()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	if *dump {
		debugDump(*repo, flag.Args())
		return
	}
	if *prop == "all" {
		p, err := loadProgram(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			start := time.Now()
			r := newRun(p, id)
			r.guarded(checks[id])
			if c := r.finish(*root, *tier, seed, start); c > rc {
				rc = c
			}
		}
		os.Exit(rc)
	}
	os.Exit(runProperty(*root, *repo, *prop, *tier, seed))
}

func debugDump(repo string, args []string) {
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	r := newRun(p, "dump")
	for _, k := range strings.Fields(os.Getenv("VERIF_PEEL")) {
		r.e.peel[k] = true
	}
	if !r.parse() {
		fmt.Println(r.findings)
		return
	}
	for _, path := range args[1:] {
		v := r.observe(args[0], path)
		o := shorten(v.val.String())
		if len(o) > 3000 {
			o = o[:3000]
		}
		fmt.Println(path, "=>", o)
	}
	fmt.Println("FOLDS", r.e.folds)
	for _, k := range r.e.oblOrd {
		o := r.e.oblig[k]
		if o.bad != r.e.False {
			fmt.Println("OBL", o.kind, p.where(o.pos), o.what, "WHEN", r.e.witness(o.bad))
		}
	}
}
