package decode

import (
	"go/types"
	"strings"

	"jscheck/flow"
	"jscheck/load"
)

// copyCheck checks that text of a string input that's kept isn't copied.
func (v *V) copyCheck(en *flow.Entry, what string, vals ...flow.Val) {
	if v.m.Bytes {
		return
	}
	sp := v.m.E.ToStr(v.m.S).Ptr.T[0].A
	v.ok("copied")
	v.opaque = "" // It isn't about the contents.
	var val func(x flow.Val)
	val = func(x flow.Val) {
		switch x := x.(type) {
		case flow.Lin:
			var empty flow.Val
			for _, t := range x.T {
				if t.A.Op == "app" && t.A.Name == "copy" {
					empty = t.A.Args[0]
				}
				if t.A.Op == "app" && t.A.Name == "append" && len(t.A.Args) > 1 {
					empty = t.A.Args[1]
				}
			}
			if empty == nil {
				return
			}
			mine := false
			for _, t := range v.m.E.Content(flow.Str{Ptr: x}).Ptr.T {
				flow.Visit(flow.A(t.A), func(u *flow.Term) {
					mine = mine || u == sp || u.Op == "app" && u.Name == "unescape"
				})
			}
			if sl, ok := empty.(flow.Sl); ok {
				empty = flow.Str{Ptr: sl.Ptr, Len: sl.Len}
			}
			if src, ok := empty.(flow.Str); mine && ok && v.decide(flow.Cond{Op: flow.GE, L: src.Len.AddC(-1)}) != -1 {
				v.failAt(en, "copied", "%s is a copy of text of the input: %s", what, flow.Show(x))
			}
		case flow.Str:
			if v.decide(flow.Cond{Op: flow.GE, L: x.Len.AddC(-1)}) != -1 {
				val(x.Ptr)
			}
		case flow.Iface:
			if x.V != nil {
				val(x.V)
			}
		case flow.Agg:
			for _, f := range x.F {
				val(f)
			}
		}
	}
	for _, x := range vals {
		val(x)
	}
}

// CheckCopies checks that text without escape sequences is unescaped to itself.
func (m *Model) CheckCopies(rep *Rep) {
	str := types.Typ[types.String]
	n := 0
	for _, fn := range m.P.AllFuncs() {
		sig := fn.Signature
		if !strings.HasSuffix(load.PkgPath(fn), "/internal/unescape") || load.IsGeneric(fn) || len(fn.Blocks) == 0 || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() && len(fn.TypeArgs()) == 0 ||
			sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Params().At(0).Type(), str) || !types.Identical(sig.Results().At(0).Type(), str) {
			continue
		}
		n++
		m.curK, m.curE = "unescape", fnName(fn)
		arg := m.E.SymVal("str", str)
		text := m.E.ToStr(arg)
		start := m.E.Start(fn, []flow.Val{arg})
		start.F.Assume(ge(text.Len, flow.C(0)))
		outs := m.E.Explore(start)
		if rep.Obligations == nil {
			rep.Obligations = map[string]int{}
		}
		for _, o := range outs {
			rep.Obligations["copied"]++
			f := Finding{Cat: "copied", K: "unescape", E: fnName(fn), Pos: o.Pos, Fn: fnName(fn)}
			if o.Kind == flow.OStop {
				f.Undecided, f.Msg = true, o.Rule+": "+o.Msg
				rep.Findings = append(rep.Findings, f)
				continue
			}
			if o.Kind != flow.OReturn || len(o.Ret) != 1 {
				continue
			}
			r, ok := o.Ret[0].(flow.Str)
			if !ok {
				continue
			}
			if o.S.F.Decide(eq(r.Len, flow.C(0))) == 1 || m.E.Same(o.S.F, r.Ptr, text.Ptr) == 1 {
				continue
			}
			switch m.escaped(o.S.F, text) {
			case 1:
			case 0:
				f.Undecided, f.Msg = true, "it isn't known whether there are escape sequences"
				rep.Findings = append(rep.Findings, f)
			default:
				f.Msg = "text without escape sequences is copied"
				if c := condsOfFacts(o.S.F); c != "" {
					f.Msg += c
				}
				rep.Findings = append(rep.Findings, f)
			}
		}
	}
	if n == 0 {
		rep.Findings = append(rep.Findings, Finding{Cat: "copied", K: "unescape", Msg: "the function that unescapes strings isn't found", Undecided: true})
	}
}

// escaped tells whether a text has a backslash: -1 if it may have none as far as the
// path is concerned.
func (m *Model) escaped(f *flow.Facts, text flow.Str) int {
	r := -1
	for _, h := range f.Hist {
		flow.Visit(h, func(t *flow.Term) {
			switch {
			case t.Op == "load" && flow.Base(t.Addr) != nil && flow.Base(t.Addr) == flow.Base(text.Ptr):
				if r != 1 {
					r = 0
				}
			case t.Op == "app" && t.Name == "IndexByte" && len(t.Args) == 2 && m.E.Same(f, t.Args[1], flow.C('\\')) == 1 && m.E.Same(f, m.E.ToStr(t.Args[0]), text) == 1:
				switch f.Decide(flow.Cond{Op: flow.EQ, L: lin(m.E.AppVal(t, m.results[t])).AddC(1)}) {
				case -1:
					r = 1
				case 0:
					if r != 1 {
						r = 0
					}
				}
			case t.Op == "app":
				if r != 1 {
					r = 0
				}
			}
		})
	}
	return r
}

func condsOfFacts(f *flow.Facts) string { return condsOf(&flow.Back{Hist: f.Hist}) }
