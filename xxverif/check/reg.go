package check

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

var registry = map[string]func(w *World, r *Rep){}

// IDs lists the decidable properties.
func IDs() []string {
	var s []string
	for k := range registry {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// Decide runs the checker of one property and returns the exit code.
func Decide(id, repo, verif, tier string, seed int) int {
	start := time.Now()
	f := registry[id]
	if f == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	w, err := LoadWorld(repo)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := NewRep(id, w)
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Fail("undecided", "analysis", "the analysis could not complete: %v", x)
				fmt.Printf("%s\n", debug.Stack())
			}
		}()
		f(w, r)
	}()
	return r.Finish(verif, tier, seed, start)
}

func init() {
	registry["DBG"] = func(w *World, r *Rep) {
		cw, err := w.newCW()
		if err != nil {
			r.Fail("roles", "cache", "%v", err)
			return
		}
		fmt.Println(cw.errs, cw.Data, cw.Exp, cw.DT, cw.HashT, cw.ListT, cw.HPath, cw.Vals, cw.FVals, cw.Nil, cw.Wrong)
		if op := os.Getenv("OP"); op != "" {
			for _, x := range cw.Runs(op) {
				fmt.Println(x.Scen, x.O.Kind, x.O.Rets, x.O.Val, "|", facts(x.O.St))
				if cw.singleKey(cw.Ops[op]) {
					fmt.Println("    ", cw.look(x.O.St, keyOf(x.Args)))
				}
				for _, l := range loopsOf(x.O.St.Events()) {
					for i, b := range l.Backs {
						fmt.Println("     iter", i, facts(b.St), b.St.Tags)
						for _, v := range l.Vars {
							fmt.Println("          ", v.What, v.Sym, v.Init, v.Steps[i])
						}
					}
				}
			}
			return
		}
		for _, op := range sortedOps(cw.Ops) {
			t := time.Now()
			n, k := 0, map[string]int{}
			for _, x := range cw.Runs(op) {
				n++
				k[string(x.O.Kind.String())]++
			}
			fmt.Println(op, n, k, time.Since(t))
		}
	}
}
