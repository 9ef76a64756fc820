package flow

import (
	"golang.org/x/tools/go/ssa"

	"fmt"
	"go/types"
)

// Fork is a condition a computation needs to be partitioned by.
type Fork struct{ C Cond }

// Try runs f; it returns the condition f needs to be decided, or why it stopped.
func Try(f func()) (need *Cond, stopped string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case fork:
				need = &r.c
			case stop:
				stopped = r.rule + ": " + r.msg
			default:
				panic(r)
			}
		}
	}()
	f()
	return
}

// WithFacts is s with other facts.
func (s *State) WithFacts(f *Facts) *State {
	return &State{F: f, Log: s.Log, Note: s.Note}
}

// Before is s at the time before an entry of its log was made.
func (s *State) Before(en *Entry) *State {
	return &State{F: s.F, Log: en.prev, Note: s.Note}
}

// After is s at the time right after an entry of its log was made.
func (s *State) At(en *Entry) *State {
	return &State{F: s.F, Log: en, Note: s.Note}
}

// Visit calls f for all terms v depends on.
func Visit(v Val, f func(*Term)) {
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			atoms(a, visit)
		}
		atoms(t.Addr, visit)
	}
	if v != nil {
		atoms(v, visit)
	}
}

// Proj is a scalar part of a term.
func (e *Eng) Proj(app *Term, name string, t types.Type) Val { return e.projVal(app, name, t) }

// EqualStr compares strings.
func (e *Eng) EqualStr(s *State, x, y Str) Cond { return e.equalStr(s, x, y) }

// StrConst is a constant string.
func (e *Eng) StrConst(s string) Val { return e.strConst(s) }

// Content strips copies off a string.
func (e *Eng) Content(v Str) Str { return e.content(v) }

// CopyStr is a copy of a string.
func (e *Eng) CopyStr(v Val) Val { return e.copyStr(v) }

// LoadScalar reads one word.
func (e *Eng) LoadScalar(s *State, addr Lin, size int64, t types.Type) Val {
	return e.loadScalar(s, addr, size, t)
}

// IsFresh returns true for memory that was allocated on the path.
func IsFresh(b *Term) bool { return fresh(b) }

// Same decides whether two values are equal under f: 1 yes, -1 no, 0 unknown.
func (e *Eng) Same(f *Facts, x, y Val) int {
	all := func(rs ...int) int {
		r := 1
		for _, k := range rs {
			if k == -1 {
				return -1
			}
			if k == 0 {
				r = 0
			}
		}
		return r
	}
	lin := func(a, b Lin) int { return f.Decide(Cond{Op: EQ, L: a.Add(b, -1)}) }
	switch x := x.(type) {
	case nil:
		if y == nil {
			return 1
		}
		return 0
	case Lin:
		if y, ok := y.(Lin); ok {
			r := lin(x, y)
			if r != 1 && len(x.T) == 1 && len(y.T) == 1 && x.C == y.C && x.T[0].K == y.T[0].K && e.sameTerm(f, x.T[0].A, y.T[0].A) {
				return 1
			}
			return r
		}
	case Str:
		if y, ok := y.(Str); ok {
			if r := f.Decide(Cond{Op: EQ, L: x.Len.Add(y.Len, -1)}); r == 1 && f.Decide(Cond{Op: EQ, L: x.Len}) == 1 {
				return 1
			}
			x, y = e.content(x), e.content(y)
			r := all(e.Same(f, x.Ptr, y.Ptr), e.Same(f, x.Len, y.Len))
			if r == -1 && f.Decide(Cond{Op: EQ, L: x.Len.Add(y.Len, -1)}) == -1 {
				return -1
			}
			if r == 1 {
				return 1
			}
			return 0
		}
	case Sl:
		if y, ok := y.(Sl); ok {
			return all(lin(x.Ptr, y.Ptr), lin(x.Len, y.Len), lin(x.Cap, y.Cap))
		}
	case Cond:
		if y, ok := y.(Cond); ok {
			a, b := f.Decide(x), f.Decide(y)
			switch {
			case a != 0 && b != 0 && a == b:
				return 1
			case a != 0 && b != 0:
				return -1
			case x.Key() == y.Key():
				return 1
			case x.Op == y.Op && x.T != nil && y.T != nil && e.sameTerm(f, x.T, y.T):
				return 1
			}
			return 0
		}
	case Iface:
		y, ok := y.(Iface)
		if !ok {
			return 0
		}
		switch {
		case x.T == nil && y.T == nil:
			return e.Same(f, x.TW, y.TW)
		case x.T != nil && y.T != nil:
			if !types.Identical(x.T, y.T) {
				return -1
			}
			return e.Same(f, x.V, y.V)
		case x.T != nil && f.Decide(Cond{Op: EQ, L: y.TW}) == 1, y.T != nil && f.Decide(Cond{Op: EQ, L: x.TW}) == 1:
			return -1
		}
		return 0
	case Agg:
		if y, ok := y.(Agg); ok && len(x.F) == len(y.F) {
			r := 1
			for i := range x.F {
				r = all(r, e.Same(f, x.F[i], y.F[i]))
			}
			return r
		}
	case *Term:
		if y, ok := y.(*Term); ok {
			if x == y || e.sameTerm(f, x, y) {
				return 1
			}
		}
		return 0
	case Fn:
		if y, ok := y.(Fn); ok && x.Key() == y.Key() {
			return 1
		}
	}
	return 0
}

// sameTerm compares terms structurally under the facts.
func (e *Eng) sameTerm(f *Facts, x, y *Term) bool {
	if x == y {
		return true
	}
	if x.Op != y.Op || x.Name != y.Name || len(x.Args) != len(y.Args) {
		return false
	}
	switch x.Op {
	case "app":
		for i := range x.Args {
			if e.Same(f, x.Args[i], y.Args[i]) != 1 {
				return false
			}
		}
		return true
	case "proj":
		a, ok1 := x.Args[0].(*Term)
		b, ok2 := y.Args[0].(*Term)
		return ok1 && ok2 && e.sameTerm(f, a, b)
	case "load":
		return x.Ver == y.Ver && types.Identical(x.Typ, y.Typ) && f.Decide(Cond{Op: EQ, L: x.Addr.Add(y.Addr, -1)}) == 1
	}
	return false
}

// Key of a term is needed for it to be a value.
var _ = fmt.Sprint

// GlobTerm is the address of a global.
func (e *Eng) GlobTerm(g *ssa.Global) *Term { return e.globTerm(g) }

// Final returns true if the summary is complete.
func (r *LoopRec) Final() bool { return r.final }

// MakeFork is what partitions the state if it's panicked with.
func MakeFork(c Cond) any { return fork{c} }

// Convert converts v.
func (e *Eng) Convert(s *State, v Val, from, to types.Type) (r Val, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(stop); !is {
				panic(x)
			}
			ok = false
		}
	}()
	return e.convert(s, v, from, to), true
}

// Unwind explores the deferred calls of fn, the first activation of s, as if it
// panicked. It returns false if there are none.
func (e *Eng) Unwind(s *State) ([]*Outcome, bool) {
	n := s.clone()
	n.Calls = n.Calls[:1]
	n.Loops = nil
	c := n.top()
	for _, b := range c.Fn.Blocks {
		for i, in := range b.Instrs {
			if _, ok := in.(*ssa.RunDefers); ok {
				c.Block, c.PC = b, i
				return e.Explore(n), true
			}
		}
	}
	return nil, false
}

// NewFacts returns no facts.
func NewFacts() *Facts {
	return &Facts{eq: map[*Term]Lin{}, bl: map[*Term]bool{}}
}

// Visit calls f for all terms c depends on.
func (c Cond) Visit(f func(*Term)) {
	if c.T != nil {
		Visit(c.T, f)
	}
	Visit(c.L, f)
}
