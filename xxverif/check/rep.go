package check

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

// Viol is one violated obligation.
type Viol struct {
	Rule, Construct, Detail string
}

// Rep collects the obligations of one property.
type Rep struct {
	ID      string
	W       *World
	Obl, OK int
	Rules   map[string]int
	Cons    map[string]bool
	Viols   []Viol
	seen    map[string]bool
	Notes   []string
	Assume  []string
	Explain string
	Paths   int
}

func NewRep(id string, w *World) *Rep {
	return &Rep{ID: id, W: w, Rules: map[string]int{}, Cons: map[string]bool{}, seen: map[string]bool{}}
}

// Check records one obligation.
func (r *Rep) Check(ok bool, rule, construct, format string, a ...any) bool {
	r.Obl++
	r.Rules[rule]++
	r.Cons[construct] = true
	if ok {
		r.OK++
		return true
	}
	key := rule + "|" + construct
	if !r.seen[key] {
		r.seen[key] = true
		r.Viols = append(r.Viols, Viol{rule, construct, fmt.Sprintf(format, a...)})
	}
	return false
}

// Floor fails the property when fewer instances than confirmed by hand were found.
func (r *Rep) Floor(what string, got, want int) {
	r.Check(got >= want, "instance floor", what, "found %d %s, expected at least %d: the rule would hold vacuously", got, what, want)
}

func (r *Rep) Fail(rule, construct, format string, a ...any) {
	r.Check(false, rule, construct, format, a...)
}

func (r *Rep) Note(format string, a ...any) { r.Notes = append(r.Notes, fmt.Sprintf(format, a...)) }

// fnName names a function in reports.
func (w *World) fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), w.Mod+"/", "")
}

// where describes an outcome's path.
func facts(st *ai.State) string {
	f := st.Facts()
	s := strings.Join(f, " && ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// Finish writes the evidence and prints the verdict; it returns the exit code.
func (r *Rep) Finish(verif, tier string, seed int, start time.Time) int {
	var fns []string
	for f := range r.W.E.Funcs {
		fns = append(fns, r.W.fnName(f))
	}
	sort.Strings(fns)
	var cons []string
	for c := range r.Cons {
		cons = append(cons, c)
	}
	sort.Strings(cons)
	ncons := len(cons)
	if len(cons) > 60 {
		cons = cons[:60]
	}
	var ext []string
	for x := range r.W.E.Unmod {
		ext = append(ext, x)
	}
	sort.Strings(ext)
	s := r.W.E.Stats
	ev := map[string]any{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":            r.Explain,
			"obligations":            r.Obl,
			"discharged":             r.OK,
			"obligations_by_rule":    r.Rules,
			"constructs":             ncons,
			"construct_sample":       cons,
			"functions_analysed":     fns,
			"abstract_paths":         s.Paths,
			"instructions":           s.Instrs,
			"call_sites_interpreted": s.Calls,
			"loops_summarised":       s.Loops,
			"panic_obligations":      s.Oblig,
			"panic_proved":           s.Proved,
			"unmodelled_externals":   ext,
			"notes":                  r.Notes,
			"violations_found":       r.Viols,
		},
		"assumptions": r.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(r.Viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644)
	if len(r.Viols) == 0 {
		fmt.Printf("OK property=%s obligations=%d paths=%d\n", r.ID, r.Obl, s.Paths)
		return 0
	}
	rd := filepath.Join(verif, "evidence", "replay")
	_ = os.MkdirAll(rd, 0o755)
	var sb strings.Builder
	for _, v := range r.Viols {
		fmt.Fprintf(&sb, "rule: %s\nconstruct: %s\n%s\n\n", v.Rule, v.Construct, v.Detail)
	}
	file := filepath.Join(rd, r.ID+".txt")
	_ = os.WriteFile(file, []byte(sb.String()), 0o644)
	for _, v := range r.Viols {
		fmt.Printf("  [%s] %s: %s\n", v.Rule, v.Construct, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, file)
	return 1
}
