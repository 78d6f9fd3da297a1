// Command xxverif decides the properties of liujiangwei/xxcache by abstract
// interpretation of its source.
package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
	"xxverif/check"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	dump := flag.String("dump", "", "pkg:Func or pkg:Type.Method to interpret and print")
	dssa := flag.String("ssa", "", "pkg:Func or pkg:Type.Method to print in SSA form")
	prop := flag.String("property", "", "property to decide")
	verif := flag.String("verif", "/verif", "where evidence is written")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "recorded in the evidence")
	flag.Parse()
	if *prop != "" {
		os.Exit(check.Decide(*prop, *repo, *verif, *tier, *seed))
	}
	w, err := check.LoadWorld(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *dssa != "" {
		find(w, *dssa).WriteTo(os.Stdout)
		return
	}
	if *dump != "" {
		fn := find(w, *dump)
		st := w.Init()
		var args []*ai.Term
		for i, p := range fn.Params {
			n := p.Name()
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				n = "!" + n
			}
			_ = i
			args = append(args, ai.Sym(n, p.Type()))
		}
		for i, o := range w.E.Run(fn, args, st) {
			fmt.Printf("--- path %d: %s rets=%v val=%v at %s\n", i, o.Kind, o.Rets, o.Val, w.Pos(o.Pos))
			fmt.Println("   facts:", strings.Join(o.St.Facts(), " && "))
			pe(w, o.St.Events(), "   ")
		}
		fmt.Printf("%+v\n", *w.E.Stats)
		return
	}
}

func pe(w *check.World, evs []*ai.Event, ind string) {
	for _, ev := range evs {
		fmt.Printf("%s%s %s %v res=%v ok=%v locks=%s %s\n", ind, ev.Kind, ev.Name, ev.Args, ev.Res, ev.OK, ev.Locks, w.Pos(ev.Pos))
		if ev.Loop != nil {
			for _, v := range ev.Loop.Vars {
				fmt.Printf("%s  var %s (%s) init=%v steps=%v\n", ind, v.Sym, v.What, v.Init, v.Steps)
			}
			for j, b := range ev.Loop.Backs {
				fmt.Printf("%s  iter %d\n", ind, j)
				pe(w, b.Events, ind+"    ")
			}
		}
	}
}

func find(w *check.World, s string) *ssa.Function {
	i := strings.Index(s, ":")
	pkg, n := s[:i], s[i+1:]
	if j := strings.Index(n, "."); j >= 0 {
		return w.Method(w.Type(pkg, n[:j]), n[j+1:])
	}
	return w.Fn(pkg, n)
}
