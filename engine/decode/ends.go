package decode

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
	"jscheck/load"
)

// Ends collects what's known about the loops: whether they come to an end.
type Ends struct {
	proved  map[token.Pos]string // why
	unknown map[token.Pos]string // where
	fns     map[token.Pos]string // function
	found   map[token.Pos]bool
	rep     *Rep
}

// WatchLoops makes the loops of the paths explored from now on obligations.
func (m *Model) WatchLoops(rep *Rep) {
	m.ends = &Ends{proved: map[token.Pos]string{}, unknown: map[token.Pos]string{}, fns: map[token.Pos]string{}, found: map[token.Pos]bool{}, rep: rep}
	m.E.OnLoop = m.onLoop
}

// Loops are the loops of the functions analysed, and those for which it isn't
// known that they end.
func (m *Model) Loops() (proved, unknown []string) {
	if m.ends == nil {
		return
	}
	for p, why := range m.ends.proved {
		if m.ends.unknown[p] == "" {
			proved = append(proved, fmt.Sprintf("%s %s: %s", m.P.Pos(p), m.ends.fns[p], why))
		}
	}
	for p, why := range m.ends.unknown {
		unknown = append(unknown, fmt.Sprintf("%s %s: %s", m.P.Pos(p), m.ends.fns[p], why))
	}
	sort.Strings(proved)
	sort.Strings(unknown)
	return
}

// loopPos is where a loop is.
func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, b := range append([]*ssa.BasicBlock{h}, h.Succs...) {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				if _, phi := in.(*ssa.Phi); !phi {
					return in.Pos()
				}
			}
		}
	}
	return h.Parent().Pos()
}

func (m *Model) onLoop(r *flow.LoopRec) {
	if m.ends == nil || m.ends.rep == nil {
		return
	}
	pos := loopPos(r.Head)
	k, e := m.curK, m.curE
	if e == "" {
		k, e = "Decode", "loop"
	}
	m.ends.fns[pos] = fnName(r.Fn)
	if m.ends.rep.Obligations == nil {
		m.ends.rep.Obligations = map[string]int{}
	}
	m.ends.rep.Obligations["ends"]++
	for _, b := range r.Backs {
		if m.stuck(r, b) {
			if !m.ends.found[pos] {
				m.ends.found[pos] = true
				m.ends.rep.Findings = append(m.ends.rep.Findings, Finding{Cat: "ends", K: k, E: e, Pos: m.P.Pos(pos), Fn: fnName(r.Fn),
					Msg: "an iteration of the loop changes nothing it depends on: it's repeated forever" + condsOf(b)})
			}
			return
		}
	}
	for i, c := range r.Comps {
		cur, ok := c.Val.(flow.Lin)
		if !ok || c.Kind == flow.Cur || m.Tokens.Ptr.T == nil || flow.Base(m.Tokens.Ptr) == nil {
			continue
		}
		for _, b := range r.Backs {
			next, ok := b.Next[i].(flow.Lin)
			past := int64(1)
			if m.stuckBut(r, b, i) {
				past = 0
			}
			if ok && m.readsToken(b, cur) && m.withTokens(b.S, next).Decide(ge(cur, next.AddC(past))) == 1 && m.possible(b) && !m.ends.found[pos] {
				m.ends.found[pos] = true
				m.ends.rep.Findings = append(m.ends.rep.Findings, Finding{Cat: "ends", K: k, E: e, Pos: m.P.Pos(pos), Fn: fnName(r.Fn),
					Msg: "an iteration of the loop doesn't get past the token" + condsOf(b)})
			}
		}
	}
	if why := m.ranked(r); why != "" {
		m.ends.proved[pos] = why
	} else {
		m.ends.unknown[pos] = k + "/" + e
	}
}

// condsOf is the path of an iteration.
func condsOf(b *flow.Back) string {
	var l []string
	for _, h := range b.Hist {
		l = append(l, flow.Show(h))
	}
	if len(l) > 4 {
		l = append(l[:4:4], "...")
	}
	if len(l) == 0 {
		return ""
	}
	return " if " + strings.Join(l, ", ")
}

// stuck tells whether the state at the head of the loop is the same again after
// an iteration that ends in a way, and the path may be taken.
func (m *Model) stuck(r *flow.LoopRec, b *flow.Back) bool {
	return m.stuckBut(r, b, -1) && m.possible(b)
}

// stuckBut is stuck for all parts of the state but one.
func (m *Model) stuckBut(r *flow.LoopRec, b *flow.Back, but int) bool {
	// What the path doesn't depend on may change.
	seen := map[*flow.Term]bool{}
	input := m.Tokens.Ptr.T != nil // it depends on the tokens and the input only
	for _, h := range b.Hist {
		flow.Visit(h, func(t *flow.Term) {
			seen[t] = true
			if t.Op == "load" {
				bs := flow.Base(t.Addr)
				input = input && bs != nil && (bs == flow.Base(m.Tokens.Ptr) || bs == flow.Base(m.E.ToStr(m.S).Ptr))
			}
		})
	}
	for i, c := range r.Comps {
		if i == but {
			continue
		}
		if input && (c.Kind == flow.Gen && c.Sym != nil && !seen[c.Sym] || c.Kind == flow.Ind && !seen[r.N]) {
			continue
		}
		if c.Kind == flow.Cur {
			if i > 0 && r.Comps[i-1].Phi == c.Phi && c.Phi != nil {
				continue
			}
			cur, next, ok := r.Cursor(i, b)
			if !ok || b.S.F.Decide(eq(cur, next)) != 1 {
				return false
			}
			continue
		}
		if m.E.Same(b.S.F, b.Next[i], c.Val) != 1 {
			return false
		}
	}
	cell := func(a flow.Lin) bool {
		for _, c := range r.Comps {
			if c.Cell != nil && c.Cell.Eq(b.S.F.Norm(a)) {
				return true
			}
		}
		return false
	}
	for _, en := range b.Entries {
		switch en.Kind {
		case flow.EStore:
			if bs := flow.Base(en.Addr); !input && !cell(en.Addr) && (bs == nil || bs.Op != "alloc") {
				return false
			}
		case flow.EEvent:
			if !input || en.Ev.Name != "append" {
				return false
			}
		case flow.EHavoc, flow.ELoop:
			return false
		}
	}
	return true
}

// readsToken tells whether an iteration depends on the token at an index.
func (m *Model) readsToken(b *flow.Back, i flow.Lin) bool {
	found := false
	for _, h := range b.Hist {
		flow.Visit(h, func(t *flow.Term) {
			if t.Op == "load" && flow.Base(t.Addr) == flow.Base(m.Tokens.Ptr) {
				if x, ok := m.tokIndex(b.S, t.Addr.AddC(-m.Off(m.Tok, "Type"))); ok && b.S.F.Decide(eq(x, i)) == 1 {
					found = true
				}
			}
		})
	}
	return found
}

// possible tells whether an iteration depends on what's known to be possible only.
func (m *Model) possible(b *flow.Back) bool {
	possible := true
	for _, h := range b.Hist {
		if h.Op != flow.EQ {
			flow.Visit(h, func(t *flow.Term) {
				if m.Tokens.Ptr.T != nil && t.Op == "load" && flow.Base(t.Addr) != nil && flow.Base(t.Addr) == flow.Base(m.Tokens.Ptr) {
					if !b.S.F.Norm(flow.A(t)).IsC() {
						possible = false
					}
				}
			})
		}
		flow.Visit(h, func(t *flow.Term) {
			if t.Op == "app" && !knownApp(t.Name) || t.Op == "load" && m.Frames.T != nil && flow.Base(t.Addr) == flow.Base(m.Frames) {
				possible = false
			}
		})
	}
	return possible
}

// ranked tells why a loop ends.
func (m *Model) ranked(r *flow.LoopRec) string {
	if len(r.Backs) == 0 {
		return "no second iteration"
	}
	for i, c := range r.Comps {
		if c.Kind == flow.Cur {
			if i > 0 && r.Comps[i-1].Phi == c.Phi {
				continue
			}
			up := true
			for _, b := range r.Backs {
				cur, next, ok := r.Cursor(i, b)
				up = up && ok && b.S.F.Decide(ge(next, cur.AddC(1))) == 1
			}
			if up {
				return "the slice gets shorter"
			}
			continue
		}
		cur, ok := c.Val.(flow.Lin)
		if !ok || c.Kind == flow.Inv {
			continue
		}
		up, down, climbs := true, true, true
		upper, lower := true, true
		for _, b := range r.Backs {
			next, ok := b.Next[i].(flow.Lin)
			if !ok {
				up, down, climbs = false, false, false
				break
			}
			f := m.withTokens(b.S, next)
			up = up && f.Decide(ge(next, cur.AddC(1))) == 1
			down = down && f.Decide(ge(cur, next.AddC(1))) == 1
			if m.Frames.T != nil {
				climbs = climbs && m.E.Same(b.S.F, next, m.fr(b.S, cur, "ParentFrameIndex")) == 1
			} else {
				climbs = false
			}
			upper = upper && m.bounded(r, b, cur, -1)
			lower = lower && m.bounded(r, b, cur, 1)
		}
		switch {
		case climbs:
			return "parents come before their children"
		case up && upper:
			return c.Name + " increases up to a bound"
		case down && lower:
			return c.Name + " decreases down to a bound"
		}
	}
	return ""
}

// withTokens are the facts of a state and those about the tokens in x.
func (m *Model) withTokens(s *flow.State, x flow.Lin) *flow.Facts {
	if m.Tok == nil || m.Tokens.Ptr.T == nil {
		return s.F
	}
	f := s.F.Clone()
	for _, i := range m.tokensIn(s, x) {
		if !m.tokenFacts(s, f, i, m.E.ToStr(m.S)) {
			return s.F
		}
	}
	return f
}

// bounded tells whether an iteration is only entered if x is less (greater for
// sign 1) than something that doesn't change, or is an index.
func (m *Model) bounded(r *flow.LoopRec, b *flow.Back, x flow.Lin, sign int64) bool {
	varies := map[*flow.Term]bool{r.N: true}
	for _, c := range r.Comps {
		if c.Sym != nil {
			varies[c.Sym] = true
		}
	}
	var v *flow.Term
	var k int64
	for _, t := range x.T {
		if varies[t.A] {
			v, k = t.A, t.K
		}
	}
	if v == nil {
		return false
	}
	for _, h := range b.Hist {
		if h.Op == flow.GE {
			l := h.L
			if cf := l.Coef(v); cf != 0 && (cf > 0) == (k*sign > 0) {
				other := false
				for _, t := range l.T {
					if t.A != v {
						flow.Visit(flow.A(t.A), func(u *flow.Term) { other = other || varies[u] })
					}
				}
				if !other {
					return true
				}
			}
		}
		idx := false
		flow.Visit(h, func(t *flow.Term) {
			if t.Op == "load" && t.Addr.Coef(v) != 0 {
				idx = true // out of bounds at last
			}
		})
		if idx {
			return true
		}
	}
	return false
}

// CheckEnds looks for endless loops in the functions that convert text.
func (m *Model) CheckEnds(rep *Rep) {
	for _, fn := range m.P.AllFuncs() {
		pk := load.PkgPath(fn)
		if !strings.HasPrefix(pk, m.P.ModPath+"/internal/") || load.IsGeneric(fn) || len(fn.Blocks) == 0 || fn.Parent() != nil || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "verif") {
			continue
		}
		m.endsOf(fn, rep)
	}
}

func (m *Model) endsOf(fn *ssa.Function, rep *Rep) {
	defer func() {
		if e := recover(); e != nil {
			rep.Findings = append(rep.Findings, Finding{Cat: "ends", K: "text", E: fnName(fn), Pos: m.P.Pos(fn.Pos()), Fn: fnName(fn), Msg: fmt.Sprint(e), Undecided: true})
		}
	}()
	var args []flow.Val
	for _, p := range fn.Params {
		v := m.E.SymVal(p.Name(), p.Type())
		args = append(args, v)
	}
	s := m.E.Start(fn, args)
	for _, a := range args {
		switch a := a.(type) {
		case flow.Str:
			s.F.Assume(ge(a.Len, flow.C(0)))
		case flow.Sl:
			s.F.Assume(ge(a.Len, flow.C(0)))
		}
	}
	m.curK, m.curE = "text", fnName(fn)
	max := m.E.MaxSteps
	m.E.MaxSteps = m.E.Steps + 3_000_000
	defer func() { m.E.MaxSteps = max }()
	outs := m.E.Explore(s)
	for _, o := range outs {
		if o.Kind == flow.OStop {
			rep.Findings = append(rep.Findings, Finding{Cat: "ends", K: "text", E: fnName(fn), Pos: o.Pos, Fn: fnName(fn), Msg: o.Rule + ": " + o.Msg, Undecided: true})
			return
		}
	}
}

// repeats tells whether a transition leads to the same state again.
func (v *V) repeats() bool {
	m := v.m
	if v.o.Kind != flow.OCut || m.tiSym == nil {
		return false
	}
	// same tells whether a variable of the loop has the same value again. The index of
	// the token never gets less.
	back := false
	same := func(x, y flow.Val) bool {
		if next, ok := y.(flow.Lin); ok && m.E.Same(v.s.F, x, m.TI) == 1 {
			f := m.withTokens(&flow.State{F: v.s.F.Clone(), Log: v.s.Log}, next)
			back = back || f.Decide(ge(m.TI, next.AddC(1))) == 1
			return f.Decide(ge(m.TI, next)) == 1
		}
		return m.E.Same(v.s.F, y, x) == 1
	}
	all := true
	for p, x := range m.headAt.Phis {
		all = same(x, v.o.Next[p]) && all
	}
	for a := range m.Cells {
		el := a.Typ.Underlying().(*types.Pointer).Elem()
		all = same(m.E.Load(v.start, flow.A(a), el), m.E.Load(v.s, flow.A(a), el)) && all
	}
	if back {
		v.fail("ends", "the iteration goes back to tokens that were passed before")
		return false
	}
	if !all {
		return false
	}
	for _, en := range v.ents {
		switch en.Kind {
		case flow.EStore:
			if en.Pos.IsValid() && v.region(en) != "local" && v.region(en) != "user" {
				return false
			}
		case flow.EHavoc, flow.ELoop:
			return false
		case flow.EEvent:
			return false
		}
	}
	return true
}
