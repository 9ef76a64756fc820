// Command jscheck decides properties of the decoder in a source tree by static
// analysis.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"jscheck/flow"
	"jscheck/text"
	"os"
	"path/filepath"
	gc "runtime/debug"
	"sort"
	"strings"
	"time"

	"jscheck/load"
)

// Finding is a violation of a rule at a construct.
type Finding struct {
	Rule, Pos, Fn, Msg string
}

func (f Finding) String() string {
	return fmt.Sprintf("%s: %s: [%s] %s", f.Pos, f.Fn, f.Rule, f.Msg)
}

// Report is what a check found and covered.
type Report struct {
	Findings    []Finding
	Coverage    map[string]any
	Explanation string
	Assumptions []string
}

func (r *Report) add(rule, pos, fn, format string, args ...any) {
	r.Findings = append(r.Findings, Finding{rule, pos, fn, fmt.Sprintf(format, args...)})
}

func (r *Report) count(name string, n int) {
	if r.Coverage == nil {
		r.Coverage = map[string]any{}
	}
	if old, ok := r.Coverage[name].(int); ok {
		n += old
	}
	r.Coverage[name] = n
}

// atLeast notes that fewer instances than there were at first were analysed.
func (r *Report) atLeast(name string, n int) {
	got, _ := r.Coverage[name].(int)
	if got < n {
		r.undecided(fmt.Sprintf("%s: only %d of %d instances found", name, got, n))
	}
}

// undecided notes what couldn't be decided: it's no violation.
func (r *Report) undecided(what string) {
	l, _ := r.Coverage["undecided"].([]string)
	r.Coverage["undecided"] = append(l, what)
}

type checkFn func(c *Ctx, r *Report)

// Ctx is the context of a check.
type Ctx struct {
	P    *load.Program
	Tier string
	inst []*instance
	comp []*instance
}

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

var checks = map[string]checkFn{}

func main() {
	gc.SetGCPercent(400)
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		debugMain()
		return
	}
	repo := flag.String("repo", "/repo", "source tree")
	out := flag.String("out", "/verif", "where evidence/ is and known-findings.txt")
	prop := flag.String("property", "", "properties (separated by commas), or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	// What isn't decided by then is undecided.
	text.Deadline = time.Now().Add(9 * time.Minute)
	flow.Deadline = text.Deadline
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if checks[id] == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		if run(id, *repo, *out, *tier) {
			rc = 1
		}
	}
	os.Exit(rc)
}

var (
	loaded *load.Program
	ctx    *Ctx
)

func run(id, repo, out, tier string) bool {
	t0 := time.Now()
	r := &Report{Coverage: map[string]any{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.add("internal", "-", "jscheck", "the analysis failed: %v", e)
				if os.Getenv("JSCHECK_DEBUG") != "" {
					panic(e)
				}
			}
		}()
		if loaded == nil {
			p, err := load.Load(repo)
			if err != nil {
				r.add("load", "-", repo, "the source can't be analysed: %v", err)
				return
			}
			loaded = p
		}
		if ctx == nil {
			ctx = &Ctx{P: loaded, Tier: tier}
		}
		checks[id](ctx, r)
	}()
	known := knownFindings(filepath.Join(out, "known-findings.txt"), id)
	var bad []Finding
	seen := map[string]bool{}
	for _, f := range r.Findings {
		key := f.String()
		if seen[key] {
			continue
		}
		seen[key] = true
		if k := known[f.Rule+" "+f.Fn]; k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		bad = append(bad, f)
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].String() < bad[j].String() })
	os.MkdirAll(filepath.Join(out, "evidence", "reports"), 0o755)
	replay := filepath.Join(out, "evidence", "reports", id+".txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d violations in %s\n", id, len(bad), repo)
		for _, f := range bad {
			fmt.Fprintln(&b, f)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for i, f := range bad {
			if i == 12 {
				fmt.Printf("  ... %d more\n", len(bad)-i)
				break
			}
			s := f.String()
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			fmt.Println(" ", s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	}
	r.Coverage["explanation"] = r.Explanation
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed(), "level": "other",
		"coverage": r.Coverage, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
		"assumptions": append([]string{}, r.Assumptions...),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, "evidence", id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s %.1fs\n", id, time.Since(t0).Seconds())
	}
	return len(bad) > 0
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

// knownFindings reads the lines "known: property=<id> <rule> <function> | <what fails>".
func knownFindings(file, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l, ok := strings.CutPrefix(l, "known: property="+id+" ")
		if !ok {
			continue
		}
		key, what, ok := strings.Cut(l, " | ")
		if ok {
			out[strings.TrimSpace(key)] = what
		}
	}
	return out
}
