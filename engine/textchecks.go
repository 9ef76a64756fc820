package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"jscheck/load"
	"jscheck/text"
)

var integerFns = []string{"U8", "I8", "U16", "I16", "U32", "I32", "U64", "I64"}

func textEnv(p *load.Program) text.Env {
	tables := map[*ssa.Global]*text.Table{}
	all := ssautil.AllFunctions(p.Prog)
	for _, n := range []string{"atoi", "jsonnum", "unescape"} {
		pk := p.Pkgs[p.ModPath+"/internal/"+n]
		if pk == nil {
			continue
		}
		var fns []*ssa.Function
		for f := range all {
			if p.InModule(f) {
				fns = append(fns, f)
			}
		}
		for g, t := range text.ConstTables(pk, fns, p.Sizes) {
			tables[g] = t
		}
	}
	inline := func(fn *ssa.Function) bool {
		return p.InModule(fn) || load.PkgPath(fn) == "unicode/utf8" && len(fn.Blocks) > 0
	}
	return text.Env{Inline: inline, PosOf: func(q token.Pos) string { return p.Pos(q) }, Tables: tables}
}

type textJob struct {
	kind string
	fn   *ssa.Function
	res  *text.Result
}

// instances returns the concrete instantiations of a package function in a fixed order.
func instances(p *load.Program, pkg, name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Instances(p.ModPath+"/internal/"+pkg, name) {
		if !load.IsGeneric(f) {
			out = append(out, f)
		}
	}
	if pk := p.Pkgs[p.ModPath+"/internal/"+pkg]; pk != nil && len(out) == 0 {
		if f := pk.Func(name); f != nil && f.Signature.TypeParams().Len() == 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func constOf(p *load.Program, pkg, name string, def int64) int64 {
	if pk := p.Pkgs[p.ModPath+"/internal/"+pkg]; pk != nil {
		if c, ok := pk.Members[name].(*ssa.NamedConst); ok {
			if v, ok := constant.Int64Val(c.Value.Value); ok {
				return v
			}
		}
	}
	return def
}

func runText(c *Ctx, r *Report, kinds ...string) []*textJob {
	env := textEnv(c.P)
	var jobs []*textJob
	for _, k := range kinds {
		switch k {
		case "integer":
			for _, n := range integerFns {
				for _, f := range instances(c.P, "atoi", n) {
					jobs = append(jobs, &textJob{kind: k, fn: f})
				}
			}
		case "number":
			for _, f := range instances(c.P, "jsonnum", "ReadNumber") {
				jobs = append(jobs, &textJob{kind: k, fn: f})
			}
		case "unescape":
			for _, f := range instances(c.P, "unescape", "Valid") {
				jobs = append(jobs, &textJob{kind: k, fn: f})
			}
		}
	}
	rcI := constOf(c.P, "jsonnum", "ReturnCodeInteger", 9)
	rcN := constOf(c.P, "jsonnum", "ReturnCodeNumber", 10)
	rcE := constOf(c.P, "jsonnum", "ReturnCodeErr", 0)
	digits := 24
	if c.thorough() {
		digits = 40
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					j.res = &text.Result{Findings: []text.Finding{{Rule: "internal", Pos: "-", Fn: j.fn.String(), Msg: fmt.Sprint("the analysis failed: ", e)}}}
				}
			}()
			switch j.kind {
			case "integer":
				j.res = text.CheckInteger(env, j.fn, digits)
			case "number":
				j.res = text.CheckNumber(env, j.fn, rcI, rcN, rcE)
			case "unescape":
				j.res = text.CheckUnescape(env, j.fn)
			}
		}()
	}
	wg.Wait()
	for _, j := range jobs {
		r.count(j.kind+"_functions", 1)
		r.count("abstract_states", j.res.States)
		r.count("case_splits", j.res.Splits)
		r.count("return_obligations", j.res.Returns)
		r.count("instructions_interpreted", j.res.Instrs)
		r.count("loop_summaries", j.res.Loops)
		r.count("bounds_obligations", j.res.Bounds)
	}
	return jobs
}

// undecidedRule are the rules of findings that aren't about the code.
var undecidedRule = map[string]bool{"undecided": true, "internal": true, "anchor": true}

// takeText takes the findings of the rules, or all.
func takeText(r *Report, jobs []*textJob, rules ...string) {
	for _, j := range jobs {
		for _, f := range j.res.Findings {
			ok := len(rules) == 0
			for _, w := range rules {
				ok = ok || f.Rule == w
			}
			if ok && undecidedRule[f.Rule] {
				r.undecided(f.Pos + ": " + f.Fn + ": [" + f.Rule + "] " + f.Msg)
			} else if ok {
				r.Findings = append(r.Findings, Finding{f.Rule, f.Pos, f.Fn, f.Msg})
			}
		}
	}
}

func init() {
	checks["C01"] = func(c *Ctx, r *Report) {
		jobs := runText(c, r, "integer")
		r.atLeast("integer_functions", 16)
		takeText(r, jobs)
		r.Explanation = "Every instance of the 8 integer parsers is interpreted abstractly over the type-checked SSA form, with symbolic digits as linear forms over digit positions, once per sign and literal length up to the stated bound; each reachable return must yield the literal's exact value or report an overflow, and the cases cover all literals of that length."
		r.Assumptions = []string{"the argument is a JSON integer literal (the tokenizer and the callers guarantee it)", "literals longer than the bound are out of scope of the integer part"}
	}
	checks["C02"] = func(c *Ctx, r *Report) {
		jobs := runText(c, r, "number")
		r.atLeast("number_functions", 2)
		takeText(r, jobs)
		r.Explanation = "Each instance of the number reader is interpreted abstractly over all byte strings, with loops closed by a fixpoint over abstract states; the product with the automaton of the JSON number grammar decides at each return that the text is accepted exactly if it's a number and classified as an integer exactly if it has neither fraction nor exponent."
	}
	checks["C03"] = func(c *Ctx, r *Report) {
		jobs := runText(c, r, "unescape")
		r.atLeast("unescape_functions", 4)
		takeText(r, jobs)
		r.Explanation = "Each instance of the unescaper is interpreted abstractly over all valid JSON string bodies of any length, with loops closed by a fixpoint over abstract states; the bytes it emits are compared with those the JSON specification gives for the part of the input consumed (plain bytes, two-character escapes, code points in UTF-8, surrogate pairs, lone surrogates replaced by U+FFFD)."
		r.Assumptions = []string{"the argument is the body of a JSON string the tokenizer has accepted"}
	}
	checks["C04"] = func(c *Ctx, r *Report) {
		jobs := runText(c, r, "integer", "number", "unescape")
		r.atLeast("integer_functions", 16)
		r.atLeast("number_functions", 2)
		r.atLeast("unescape_functions", 4)
		takeText(r, jobs, "bounds", "panic", "undecided", "internal", "anchor")
		r.Explanation = "All index and slice expressions and panics reachable in the text parsers are obligations of the abstract interpretation: each index must be shown within the length of the string or table on every abstract path."
	}
}
