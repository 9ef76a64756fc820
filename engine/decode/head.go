package decode

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
)

// Head is the state at the head of the main loop.
type Head struct {
	S           *flow.State
	Block, From *ssa.BasicBlock
	Phis        map[*ssa.Phi]flow.Val
}

// Prepare runs the prologue of Decode up to the head of the main loop and
// makes the state there arbitrary.
func (m *Model) Prepare() {
	e := m.E
	fn := m.Decode
	m.D = e.Sym("d", fn.Params[0].Type())
	m.D.NonZero = true
	m.S = e.SymVal("s", fn.Params[1].Type())
	if m.Bytes {
		// Nothing is known about the pointer of an empty slice.
	}
	m.T = e.Sym("t", fn.Params[2].Type())
	m.Opt = e.Sym("options", fn.Params[3].Type())
	m.Opt.NonZero = true
	st := e.Start(fn, []flow.Val{flow.A(m.D), m.S, flow.A(m.T), flow.A(m.Opt)})
	m.Frames = e.Load(st, flow.A(m.D).AddC(m.Off(m.Dec, "stackExp")), fieldType(m.Dec, "stackExp")).(flow.Sl).Ptr
	outs := e.Explore(st)
	var at *flow.Outcome
	for _, o := range outs {
		if o.Kind == flow.OStop && o.Rule == "tokenize" {
			if m.Arrivals == m.Arrival {
				at = o
			}
			m.Arrivals++
		} else {
			m.Prologue = append(m.Prologue, o)
		}
	}
	if at == nil {
		for _, o := range m.Prologue {
			if o.Kind == flow.OStop {
				bail("the tokenizer isn't reached: %s %s %s", o.Pos, o.Rule, o.Msg)
			}
		}
		bail("the tokenizer isn't called")
	}
	m.atTokenizer = at
	ev := at.S.Log.Ev
	cl, ok := ev.Args[2].(flow.Fn)
	if !ok {
		bail("the callback isn't known: %s", flow.Show(ev.Args[2]))
	}
	sig := cl.Fn.Signature
	tk := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	m.TokT = tk
	m.Tok = tk.Underlying().(*types.Struct)
	m.TS = e.Sizes.Sizeof(tk)
	m.Tokens = e.SymVal("tokens", sig.Params().At(0).Type()).(flow.Sl)
	m.Tokens.Ptr.T[0].A.NonZero = true
	cs := e.StartClosure(at.S, cl, []flow.Val{m.Tokens})
	cs.F.Assume(flow.Cond{Op: flow.GE, L: m.Tokens.Len.AddC(-1)})
	m.loads = map[*flow.Term]bool{}
	var head *flow.Outcome
	e.AtHead = func(*flow.State, *ssa.BasicBlock) bool { return true }
	for _, o := range e.Explore(cs) {
		if o.Kind == flow.OCut {
			if head != nil {
				bail("several loops in the callback")
			}
			head = o
		}
	}
	e.AtHead = nil
	if head == nil {
		bail("the main loop isn't found")
	}
	m.callback = cl
	m.Head(head, cl)
}

// Head makes the state at the head arbitrary: the index of the token, the index
// of the frame and everything else the loop changes are unknowns.
func (m *Model) Head(o *flow.Outcome, cl flow.Fn) {
	m.Cells = map[*flow.Term]string{}
	m.headIn = o
	changed := map[*flow.Term]bool{}
	var allocs []*flow.Term
	for i, fv := range cl.Free {
		if l, ok := fv.(flow.Lin); ok && len(l.T) == 1 && l.T[0].A.Op == "alloc" {
			allocs = append(allocs, l.T[0].A)
			m.Cells[l.T[0].A] = cl.Fn.FreeVars[i].Name()
			el := l.T[0].A.Typ.Underlying().(*types.Pointer).Elem()
			res := m.Decode.Signature.Results()
			switch {
			case types.Identical(el, errorT):
				m.errVal = l
			case types.Identical(el, types.Typ[types.Int]) && (len(m.errIdx.T) == 0 || cl.Fn.FreeVars[i].Name() == res.At(0).Name()):
				m.errIdx = l
			}
		}
	}
	for round := 0; ; round++ {
		m.build(o, allocs, changed)
		again := false
		if round > 5 {
			bail("the state of the main loop isn't found")
		}
		// Which variables does an iteration change?
		for _, k := range m.KindList() {
			for _, t := range []string{"Bool", "Ptr", "Map", "Int", "Struct", "Array"} {
				for _, r := range m.Step(k, t) {
					if r.Kind != flow.OCut {
						continue
					}
					for _, en := range flow.Entries(r.S.Log, nil) {
						if en.Kind == flow.EStore {
							b := flow.Base(en.Addr)
							if b != nil && m.Cells[b] != "" && !changed[b] && en.Pos.IsValid() {
								changed[b] = true
								again = true
							}
						}
					}
				}
			}
			if again {
				break
			}
		}
		if !again {
			break
		}
	}
}

func (m *Model) KindList() []string {
	var out []string
	for k := range m.kinds {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var debugHead = false

func (m *Model) build(o *flow.Outcome, allocs []*flow.Term, changed map[*flow.Term]bool) {
	e := m.E
	s := o.S.Clone()
	type cellVal struct {
		addr flow.Lin
		t    types.Type
		v    flow.Val
	}
	var vals []cellVal
	cand := map[*flow.Term]bool{}
	for _, a := range allocs {
		el := a.Typ.Underlying().(*types.Pointer).Elem()
		if changed[a] {
			v := e.SymVal(m.Cells[a], el)
			vals = append(vals, cellVal{flow.A(a), el, v})
			if l, ok := v.(flow.Lin); ok && isIntT(el) {
				cand[l.T[0].A] = true
			}
			continue
		}
		vals = append(vals, cellVal{flow.A(a), el, e.Load(s, flow.A(a), el)})
	}
	s.ResetLog()
	// What was known about the memory isn't in later iterations.
	f := flow.NewFacts()
	for _, h := range s.F.Hist {
		mem := false
		h.Visit(func(t *flow.Term) { mem = mem || t.Op == "load" })
		if !mem {
			f.Assume(h)
		}
	}
	s.F = f
	for _, c := range vals {
		e.Store(s, c.addr, c.t, c.v, 0)
	}
	phis := map[*ssa.Phi]flow.Val{}
	for p := range o.Next {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		v := e.SymVal("ti:"+n, p.Type())
		phis[p] = v
		if l, ok := v.(flow.Lin); ok && isIntT(p.Type()) {
			cand[l.T[0].A] = true
		}
	}
	// Indexes don't become negative.
	for t := range cand {
		s.F.Assume(flow.Cond{Op: flow.GE, L: flow.A(t)})
	}
	m.head = s
	m.headAt = &Head{S: s, Block: o.Head, From: o.From, Phis: phis}
	// Which unknown indexes the tokens, which one the frames?
	m.tiSym, m.siSym = nil, nil
	for t := range cand {
		t.Name = trimPrefix(t.Name)
	}
	m.findRoles(cand)
}

func trimPrefix(s string) string {
	if len(s) > 3 && s[:3] == "ti:" {
		return s[3:]
	}
	return s
}

// findRoles finds the indexes of the current token and frame by what they index.
func (m *Model) findRoles(cand map[*flow.Term]bool) {
	m.loads = map[*flow.Term]bool{}
	m.TI, m.SI = flow.C(0), flow.C(0)
	max := m.E.MaxSteps
	m.E.MaxSteps = m.E.Steps + 3000
	m.E.Explore(m.entry())
	m.E.MaxSteps = max
	ti, si := map[*flow.Term]int{}, map[*flow.Term]int{}
	for t := range m.loads {
		for _, x := range t.Addr.T {
			if !cand[x.A] {
				continue
			}
			switch {
			case flow.Region(t.Addr) == flow.Region(m.Tokens.Ptr) && x.K == m.TS:
				ti[x.A]++
			case flow.Region(t.Addr) == flow.Region(m.Frames) && x.K == m.FS:
				si[x.A]++
			}
		}
	}
	best := func(c map[*flow.Term]int) *flow.Term {
		var b *flow.Term
		for t, n := range c {
			if b == nil || n > c[b] || n == c[b] && t.ID < b.ID {
				b = t
			}
		}
		return b
	}
	m.tiSym, m.siSym = best(ti), best(si)
	m.loads = nil
	if m.tiSym != nil {
		m.TI = flow.A(m.tiSym)
	}
	if m.siSym != nil {
		m.SI = flow.A(m.siSym)
	}
}

// entry is a state at the head of the main loop.
func (m *Model) entry() *flow.State {
	s := m.head.Clone()
	phis := map[*ssa.Phi]flow.Val{}
	for p, v := range m.headAt.Phis {
		phis[p] = v
	}
	m.E.ResumeAt(s, m.headAt.Block, m.headAt.From, phis)
	return s
}

// Step explores the transition for a kind of token and of destination.
func (m *Model) Step(k, t string) []*flow.Outcome {
	s := m.entry()
	m.curK, m.curE = k, t
	s.F.Assume(flow.Cond{Op: flow.GE, L: m.Tokens.Len.Add(m.TI, -1).AddC(-1)})
	eq := func(l flow.Lin, c int64) {
		if !s.F.Assume(flow.Cond{Op: flow.EQ, L: l.AddC(-c)}) {
			bail("contradictory assumptions")
		}
	}
	if k != "" {
		eq(m.tok(s, m.TI, "Type"), m.kinds[k])
	}
	if t != "" {
		eq(m.fr(s, m.SI, "Type").(flow.Lin), m.types[t])
	}
	switch k {
	case "Object", "Array":
		s.F.Assume(flow.Cond{Op: flow.GE, L: m.tok(s, m.TI, "End").Add(m.TI, -1).AddC(-1)})
		s.F.Assume(flow.Cond{Op: flow.GE, L: m.Tokens.Len.Add(m.tok(s, m.TI, "End"), -1).AddC(-1)})
	}
	return m.E.Explore(s)
}

// Dump renders the outcomes of a step.
func (m *Model) Dump(outs []*flow.Outcome) string {
	b := ""
	for i, o := range outs {
		b += fmt.Sprintf("  outcome %d: kind %d %s %s at %s\n", i, o.Kind, o.Rule, o.Msg, o.Pos)
		for _, h := range o.S.F.Hist[len(m.head.F.Hist):] {
			b += "    if " + flow.Show(h) + "\n"
		}
		b += dumpLog(m, flow.Entries(o.S.Log, nil), "    ")
		for p, v := range o.Next {
			b += fmt.Sprintf("    next %s = %s\n", p.Comment, flow.Show(v))
		}
		for _, r := range o.Ret {
			b += "    return " + flow.Show(r) + "\n"
		}
	}
	return b
}

func dumpLog(m *Model, es []*flow.Entry, ind string) string {
	b := ""
	for _, en := range es {
		switch en.Kind {
		case flow.EStore:
			n := m.nameLoad(en.Addr, en.Typ)
			if n == "" {
				n = flow.Show(en.Addr)
			}
			if !en.Pos.IsValid() {
				continue
			}
			b += fmt.Sprintf("%sstore %s (%d) = %s\n", ind, n, en.Size, flow.Show(en.Val))
		case flow.EEvent:
			b += fmt.Sprintf("%sevent %s", ind, en.Ev.Name)
			for _, a := range en.Ev.Args {
				b += " " + flow.Show(a)
			}
			if en.Ev.Res != nil {
				b += " -> " + flow.Show(en.Ev.Res)
			}
			b += "\n"
		case flow.EHavoc:
			b += fmt.Sprintf("%shavoc @%d\n", ind, en.Ver)
		case flow.ELoop:
			b += fmt.Sprintf("%sloop %d %s\n", ind, en.Loop.Ver, en.Loop.Pos)
			for _, c := range en.Loop.Comps {
				b += fmt.Sprintf("%s  %s kind %d init %s delta %s\n", ind, c.Name, c.Kind, flow.Show(c.Init), flow.Show(c.Delta))
			}
			for i, k := range en.Loop.Backs {
				b += fmt.Sprintf("%s  back %d\n", ind, i)
				for _, h := range k.Hist {
					b += ind + "    if " + flow.Show(h) + "\n"
				}
				b += dumpLog(m, k.Entries, ind+"    ")
				for j, n := range k.Next {
					if en.Loop.Comps[j].Kind == flow.Gen {
						b += fmt.Sprintf("%s    next %s = %s\n", ind, en.Loop.Comps[j].Name, flow.Show(n))
					}
				}
			}
		}
	}
	return b
}
