package main

import (
	"fmt"
	"os"
	"path"
	"runtime/pprof"
	"strings"
	"time"

	"jscheck/decode"
	"jscheck/flow"
	"jscheck/load"
)

// debugMain prints the transitions of the main loop (jscheck debug REPO K/E,...).
func debugMain() {
	p, err := load.Load(os.Args[2])
	if err != nil {
		panic(err)
	}
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 4 && strings.HasPrefix(os.Args[4], "compile") {
		t0 := time.Now()
		c := decode.NewCompiler(p, os.Args[3] == "bytes")
		if os.Args[4] == "compiledump" {
			fmt.Println(c.DumpCompile())
			return
		}
		rep := &decode.Rep{}
		if os.Args[4] != "compilector" {
			c.Check(rep)
		}
		k := decode.NewCtor(p, os.Args[3] == "bytes")
		k.Resolve()
		k.Check(rep)
		c.CheckStale(rep)
		for _, f := range rep.Findings {
			fmt.Println(f)
		}
		fmt.Printf("outcomes %d splits %d obligations %v time %v %s\n", rep.Outcomes, rep.Splits, rep.Obligations, time.Since(t0), flowStat(c.Model))
		return
	}
	m := decode.New(p, os.Args[3] == "bytes")
	t0 := time.Now()
	m.Prepare()
	fmt.Println("prepared", time.Since(t0), flowStat(m))
	if os.Args[4] == "all" {
		for _, k := range m.KindList() {
			for _, t := range m.SortedTypes() {
				t0 := time.Now()
				outs := m.Step(k, t)
				n := [4]int{}
				for _, o := range outs {
					n[o.Kind]++
					if o.Kind == 3 || o.Kind == 1 {
						fmt.Println("   ", k, t, o.Kind, o.Rule, o.Msg, o.Pos, o.Fn)
					}
				}
				fmt.Printf("%s %s %v %v\n", k, t, n, time.Since(t0))
			}
		}
		fmt.Println(flowStat(m))
		return
	}
	if os.Args[4] == "spec" {
		rep := &decode.Rep{}
		t0 := time.Now()
		for _, k := range m.KindList() {
			for _, t := range m.SortedTypes() {
				if len(os.Args) > 5 && !match(os.Args[5], k+"/"+t) {
					continue
				}
				t1 := time.Now()
				m.Check(k, t, rep)
				if d := time.Since(t1); d > time.Second {
					fmt.Println("slow:", k, t, d)
				}
			}
		}
		if len(os.Args) == 5 {
			m.CheckLife(rep)
			m.CheckRecursion(rep)
			m.CheckAny(rep)
		}
		for _, f := range rep.Findings {
			fmt.Println(f)
		}
		fmt.Printf("pairs %d outcomes %d splits %d obligations %v time %v\n", rep.Pairs, rep.Outcomes, rep.Splits, rep.Obligations, time.Since(t0))
		return
	}
	if os.Args[4] == "any" {
		rep := &decode.Rep{}
		m.CheckAny(rep)
		for _, f := range rep.Findings {
			fmt.Println(f)
		}
		fmt.Printf("pairs %d outcomes %d splits %d obligations %v\n", rep.Pairs, rep.Outcomes, rep.Splits, rep.Obligations)
		return
	}
	if os.Args[4] == "life" {
		rep := &decode.Rep{}
		m.CheckLife(rep)
		m.CheckRecursion(rep)
		for _, f := range rep.Findings {
			fmt.Println(f)
		}
		fmt.Printf("pairs %d outcomes %d splits %d obligations %v\n", rep.Pairs, rep.Outcomes, rep.Splits, rep.Obligations)
		return
	}
	if os.Args[4] == "fn" {
		m.E.MaxSteps = 0
		fmt.Print(m.DumpFn(os.Args[5]))
		return
	}
	for _, ke := range os.Args[4:] {
		k, e, _ := strings.Cut(ke, "/")
		t0 := time.Now()
		flow.DebugForks = os.Getenv("FORKS") != ""
		outs := m.Step(k, e)
		fmt.Printf("== %s %s: %d outcomes, %v\n", k, e, len(outs), time.Since(t0))
		for i, o := range outs {
			fmt.Print("#", i, " ", m.Dump([]*flow.Outcome{o}))
		}
	}
}

func flowStat(m *decode.Model) string {
	return fmt.Sprintf("steps %d paths %d forks %d loops %d", m.E.Steps, m.E.Paths, m.E.Forks, m.E.LoopSums)
}

func match(pat, s string) bool {
	ok, _ := path.Match(pat, s)
	return ok
}
