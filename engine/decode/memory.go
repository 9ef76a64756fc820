package decode

import (
	"fmt"
	"go/token"
	"strings"

	"jscheck/flow"
)

// WatchAllocs reports allocations whose size isn't that of a part of the input that
// belongs to the value alone. It's to be stopped by setting the hook to nil.
func (m *Model) WatchAllocs(rep *Rep) {
	if rep.Obligations == nil {
		rep.Obligations = map[string]int{}
	}
	found := map[string]bool{}
	m.E.OnAlloc = func(s *flow.State, n flow.Lin, pos token.Pos) {
		if s.Trial() {
			return
		}
		rep.Obligations["memory"]++
		why, und := m.amount(s, n)
		if why == "" || found[fmt.Sprint(pos, why)] {
			return
		}
		found[fmt.Sprint(pos, why)] = true
		fn := ""
		if len(s.Calls) > 0 {
			fn = fnName(s.Calls[len(s.Calls)-1].Fn)
		}
		rep.Findings = append(rep.Findings, Finding{Cat: "memory", K: m.curK, E: m.curE, Pos: m.P.Pos(pos), Fn: fn,
			Msg: "memory is allocated for " + why + ": " + flow.Show(n), Undecided: und})
	}
}

// nests are the destinations whose elements may have elements.
const nests = "Any Slice SliceRecur Map MapRecur Array Ptr PtrRecur Struct StructRecur"

// amount tells what an amount of memory depends on that it mustn't.
func (m *Model) amount(s *flow.State, n flow.Lin) (why string, undecided bool) {
	n = s.F.Norm(n)
	if s.F.Decide(ge(flow.C(4096), n)) == 1 {
		return "", false
	}
	if len(m.TI.T) == 1 && m.curK != "text" {
		// A multiple of the number of elements at most.
		el := m.tok(s, m.TI, "Elements")
		if s.F.Decide(ge(el.Add(el, 1).Add(el, 2).AddC(64), n)) == 1 {
			return "", false
		}
	}
	index := map[string]bool{} // tokens of which the begin is subtracted
	for _, t := range n.T {
		if f, i := m.tokenField(s, t.A); f == "Index" && t.K < 0 {
			index[i.Key()] = true
		}
	}
	put := func(w string, u bool) {
		if w != "" && (why == "" || undecided && !u) {
			why, undecided = w, u
		}
	}
	for _, t := range n.T {
		if t.K > 0 {
			put(m.amountOf(s, t.A, index))
		}
	}
	return why, undecided
}

// tokenField is the field of a token a term is, and the index of the token.
func (m *Model) tokenField(s *flow.State, t *flow.Term) (string, flow.Lin) {
	if t.Op != "load" || m.Tokens.Ptr.T == nil || flow.Base(t.Addr) != flow.Base(m.Tokens.Ptr) {
		return "", flow.Lin{}
	}
	d := s.F.Norm(t.Addr.Add(m.Tokens.Ptr, -1))
	off := ((d.C % m.TS) + m.TS) % m.TS
	i, ok := divLin(d.AddC(-off), m.TS)
	if !ok {
		return "", flow.Lin{}
	}
	return fieldAt(m, m.Tok, off), i
}

func (m *Model) amountOf(s *flow.State, t *flow.Term, index map[string]bool) (why string, undecided bool) {
	is := func(l flow.Lin) bool { return len(l.T) == 1 && l.T[0].A == t }
	if m.curK != "text" {
		switch {
		case is(m.Tokens.Len):
			return "all tokens of the input", false
		case is(m.E.ToStr(m.S).Len):
			return "all of the input", false
		case is(m.TI):
			return "all values before it", false
		}
	}
	switch t.Op {
	case "load":
		switch f, i := m.tokenField(s, t); f {
		case "Elements":
			return "", false
		case "Index":
			return "all of the input before it", false
		case "End":
			switch m.kindOf(s, i) {
			case "Array", "Object":
				if s.F.Decide(eq(i, m.TI)) != 1 {
					return "the values within another one", true
				}
				if in(m.curE, nests) {
					return "all values within it at any depth", false
				}
				return "", false
			case "":
				return "a token of unknown kind", true
			}
			if !index[s.F.Norm(i).Key()] {
				return "all of the input before it", false
			}
			return "", false
		}
		switch flow.Region(t.Addr) {
		case flow.Region(m.Frames):
			return "", false
		}
		return "", false // of the destination, or the decoder
	case "app":
		if t.Name == "mul" {
			many := 0
			for _, a := range t.Args {
				l, ok := a.(flow.Lin)
				if !ok {
					return "a product", true
				}
				w, u := m.amount(s, l)
				if w != "" {
					return w, u
				}
				frames := true // depends on the type only
				for _, x := range l.T {
					frames = frames && x.A.Op == "load" && m.Frames.T != nil && flow.Base(x.A.Addr) == flow.Base(m.Frames)
				}
				if !frames {
					many++
				}
			}
			if many > 1 {
				return "a product of sizes", false
			}
			return "", false
		}
		if a, ok := part(t); ok {
			return m.amount(s, a)
		}
		if knownApp(t.Name) {
			return "", false
		}
		return t.Name, true
	case "sym":
		if strings.Contains(t.Name, "@") {
			return "a number that's computed in a loop", true
		}
	}
	return "", false
}

// part is the number a term is a fraction of, or another width of.
func part(t *flow.Term) (flow.Lin, bool) {
	if len(t.Args) == 0 {
		return flow.Lin{}, false
	}
	l, ok := t.Args[0].(flow.Lin)
	if ok && len(t.Args) == 1 && strings.HasPrefix(t.Name, "conv ") {
		return l, true
	}
	if ok && len(t.Args) == 2 {
		d, isC := t.Args[1].(flow.Lin)
		isC = isC && d.IsC()
		switch t.Name {
		case "/":
			return l, isC && d.C > 0 && d.C <= 64
		case ">>":
			return l, isC && d.C >= 0 && d.C <= 6
		}
	}
	return flow.Lin{}, false
}

func in(s, list string) bool {
	for _, x := range strings.Fields(list) {
		if x == s {
			return true
		}
	}
	return false
}
