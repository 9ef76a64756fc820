package decode

import (
	"go/token"
	"sort"
	"strings"

	"jscheck/flow"
)

// What an index expression of the decoder may refer to follows from the contract
// of the tokenizer. It's wrong if there's a valid input for which it isn't in
// bounds: the contract's extreme cases are tried on the facts of the path.

// Bounds collects what's known about the index expressions.
type Bounds struct {
	Proved, Unproved map[token.Pos]bool
	found            map[token.Pos]bool
	rep              *Rep
	start            *flow.State
}

// watch makes the index expressions of the paths explored by f obligations.
func (m *Model) watch(start *flow.State, rep *Rep, f func()) {
	if m.bounds == nil {
		m.bounds = &Bounds{Proved: map[token.Pos]bool{}, Unproved: map[token.Pos]bool{}, found: map[token.Pos]bool{}}
	}
	m.bounds.rep, m.bounds.start = rep, start
	m.E.OnIndex = m.onIndex
	defer func() { m.E.OnIndex = nil }()
	f()
}

func (m *Model) onIndex(s *flow.State, ptr, lo, hi, n flow.Lin, pos token.Pos) {
	b := m.bounds
	if b == nil || s.Trial() || m.curE == "" {
		return
	}
	text := m.E.ToStr(m.S)
	isText := flow.Base(ptr) != nil && flow.Base(ptr) == flow.Base(text.Ptr)
	isToks := flow.Base(ptr) != nil && flow.Base(ptr) == flow.Base(m.Tokens.Ptr)
	if !isText && !isToks {
		return
	}
	conds := []flow.Cond{ge(lo, flow.C(0)), ge(hi, lo), ge(n, hi)}
	holds := func(f *flow.Facts) bool {
		for _, c := range conds {
			if f.Decide(c) != 1 {
				return false
			}
		}
		return true
	}
	if holds(s.F) {
		b.note(true, pos)
		return
	}
	f := s.F.Clone()
	toks := m.tokensIn(s, lo, hi, n, ptr)
	for _, i := range toks {
		if !m.tokenFacts(s, f, i, text) {
			return // infeasible
		}
	}
	if holds(f) {
		b.note(true, pos)
		return
	}
	b.note(false, pos)
	if b.found[pos] {
		return
	}
	fails := func(f *flow.Facts) bool {
		for _, c := range conds {
			if f.Decide(c) == -1 {
				return true
			}
		}
		return false
	}
	try := func(what string, g *flow.Facts, cs ...flow.Cond) bool {
		for _, c := range cs {
			if !g.Assume(c) {
				return false
			}
		}
		if !fails(g) {
			return false
		}
		b.found[pos] = true
		obj := "the text of the input"
		if isToks {
			obj = "the tokens"
		}
		b.rep.Findings = append(b.rep.Findings, Finding{Cat: "bounds", K: m.curK, E: m.curE, Pos: m.P.Pos(pos), Fn: m.Decode.Name(),
			Msg: "the index is out of the bounds of " + obj + " " + what})
		return true
	}
	if !m.depends(s, nil) && try("in any case", f.Clone()) {
		return
	}
	for _, i := range toks {
		for _, w := range examples[m.kindOf(s, i)] {
			g := f.Clone()
			if !m.assumeText(s, g, i, w) {
				continue
			}
			if try("if the value is "+w, g.Clone()) {
				return
			}
			if s.F.Decide(eq(i, m.TI)) == 1 && m.curK != "Key" && !m.inComposite(s, lo, hi, n) &&
				try("if the input is "+w, g, eq(m.Tokens.Len, m.TI.AddC(1)), eq(text.Len, m.tok(s, i, "End"))) {
				return
			}
		}
	}
	if m.depends(s, nil) {
		return
	}
	if m.inComposite(s, lo, hi, n) {
		return
	}
	last := eq(m.Tokens.Len, m.TI.AddC(1))
	end := eq(text.Len, m.tok(s, m.TI, "End"))
	switch m.curK {
	case "Null", "True", "False", "String", "Integer", "Number":
		try("if the value is all of the input", f, last, end)
	case "ObjectEnd", "ArrayEnd":
		try("if this is the end of the input", f, last, eq(text.Len, m.tok(s, m.TI, "Index").AddC(1)))
	}
}

// Indexes are the index expressions that are always in bounds, and those for
// which it isn't known on some path.
func (m *Model) Indexes() (proved int, unknown []string) {
	if m.bounds == nil {
		return
	}
	for p := range m.bounds.Unproved {
		unknown = append(unknown, m.P.Pos(p))
	}
	for p := range m.bounds.Proved {
		if !m.bounds.Unproved[p] {
			proved++
		}
	}
	sort.Strings(unknown)
	return
}

func (b *Bounds) note(ok bool, pos token.Pos) {
	if ok {
		b.Proved[pos] = true
	} else {
		b.Unproved[pos] = true
	}
}

// kindOf is the kind of a token if it's known.
func (m *Model) kindOf(s *flow.State, i flow.Lin) string {
	if l := s.F.Norm(m.tok(s, i, "Type")); l.IsC() {
		return m.Kinds[l.C]
	}
	return ""
}

// tokensIn are the indexes of the tokens expressions depend on.
func (m *Model) tokensIn(s *flow.State, xs ...flow.Lin) []flow.Lin {
	seen := map[string]bool{}
	var out []flow.Lin
	put := func(i flow.Lin) {
		i = s.F.Norm(i)
		if !seen[i.Key()] {
			seen[i.Key()] = true
			out = append(out, i)
		}
	}
	put(m.TI)
	for _, x := range xs {
		flow.Visit(s.F.Norm(x), func(t *flow.Term) {
			if t.Op != "load" || flow.Base(t.Addr) != flow.Base(m.Tokens.Ptr) {
				return
			}
			for _, f := range []string{"Index", "End"} {
				if i, ok := m.tokIndex(s, t.Addr.AddC(-m.Off(m.Tok, f))); ok {
					put(i)
				}
			}
		})
	}
	return out
}

// tokenFacts assumes what the tokenizer guarantees about a token. It returns
// false if it contradicts what's known.
func (m *Model) tokenFacts(s *flow.State, f *flow.Facts, i flow.Lin, text flow.Str) bool {
	ix, end := m.tok(s, i, "Index"), m.tok(s, i, "End")
	all := func(cs ...flow.Cond) bool {
		for _, c := range cs {
			if !f.Assume(c) {
				return false
			}
		}
		return true
	}
	if !all(ge(text.Len, ix.AddC(1)), ge(ix, flow.C(0)), ge(m.Tokens.Cap, m.Tokens.Len)) {
		return false
	}
	if sl, ok := m.S.(flow.Sl); ok && !all(ge(sl.Cap, sl.Len)) {
		return false
	}
	size := int64(0)
	switch m.kindOf(s, i) {
	case "String", "Key":
		size = 2
	case "Integer", "Number":
		size = 1
	case "Null", "True":
		return all(eq(end, ix.AddC(4)), ge(text.Len, end))
	case "False":
		return all(eq(end, ix.AddC(5)), ge(text.Len, end))
	case "ArrayEnd", "ObjectEnd":
		return all(ge(i, end.AddC(1)), ge(end, flow.C(0)))
	case "Array", "Object":
		per := int64(1)
		if m.kindOf(s, i) == "Object" {
			per = 2
		}
		eix := m.tok(s, end, "Index")
		return all(ge(end, i.AddC(1)), ge(end, i.AddC(1).Add(m.tok(s, i, "Elements"), per)), ge(m.Tokens.Len, end.AddC(1)),
			ge(eix, ix.AddC(1)), ge(text.Len, eix.AddC(1)))
	}
	if size > 0 {
		if m.kindOf(s, i) == "Key" && !all(ge(m.Tokens.Len, i.AddC(3)), ge(text.Len, end.AddC(3))) {
			return false
		}
		return all(ge(end, ix.AddC(size)), ge(text.Len, end))
	}
	return true
}

// examples are texts of tokens.
var examples = map[string][]string{
	"String":  {`""`, `"0"`, `"9"`, `"-"`, `"a"`, `"t"`, `"n"`, `"-1"`, `"ab"`, `"10"`, `"\\n"`, `"abc"`, `"nul"`, `"tru"`},
	"Integer": {"0", "1", "5", "9", "10", "-1", "100", "-10"},
	"Number":  {"0.1", "1e1", "-0.1"},
}

func init() { examples["Key"] = examples["String"] }

// assumeText assumes that a token is a text. It returns false if that contradicts
// what's known, or if the path depends on the input in another way.
func (m *Model) assumeText(s *flow.State, f *flow.Facts, i flow.Lin, w string) bool {
	at := m.E.ToStr(m.S).Ptr.Add(m.tok(s, i, "Index"), 1)
	ok := f.Assume(eq(m.tok(s, i, "End"), m.tok(s, i, "Index").AddC(int64(len(w)))))
	known := func(t *flow.Term) bool {
		switch {
		case t.Op == "load":
			d := f.Norm(t.Addr.Add(at, -1))
			if !d.IsC() || d.C < 0 || d.C >= int64(len(w)) {
				return false
			}
			ok = ok && f.Assume(eq(flow.A(t), flow.C(int64(w[d.C]))))
			return true
		case t.Name == "eqstr": // not equal
			for _, a := range t.Args {
				if c, isC := flow.ConstStr(a); isC && strings.Contains(w, c) {
					return false
				}
			}
			return true
		case t.Name == "IndexByte" && len(t.Args) == 2:
			str, isStr := t.Args[0].(flow.Str)
			c, isC := t.Args[1].(flow.Lin)
			if !isStr || !isC || !c.IsC() {
				return false
			}
			d, n := f.Norm(str.Ptr.Add(at, -1)), f.Norm(str.Len)
			if !d.IsC() || !n.IsC() || d.C < 0 || n.C < 0 || d.C+n.C > int64(len(w)) {
				return false
			}
			ok = ok && f.Assume(eq(flow.A(t), flow.C(int64(strings.IndexByte(w[d.C:d.C+n.C], byte(c.C))))))
			return true
		}
		return false
	}
	return ok && !m.depends(s, known) && ok
}

// depends tells whether the path depends on the contents of the input in a way
// that isn't known.
func (m *Model) depends(s *flow.State, known func(*flow.Term) bool) bool {
	text := m.E.ToStr(m.S)
	bad := false
	for _, h := range s.F.Hist[len(m.bounds.start.F.Hist):] {
		if (h.Op == flow.NOT || h.Op == flow.IS) && h.T.Op == "app" && h.T.Name == "eqstr" {
			if known != nil {
				bad = bad || h.Op == flow.IS || !known(h.T)
			}
			continue // the lengths are known to be equal
		}
		flow.Visit(h, func(t *flow.Term) {
			if bad {
				return
			}
			dep := false
			switch {
			case t.Op == "load" && flow.Base(t.Addr) == flow.Base(text.Ptr) && isIntT(t.Typ):
				dep = true
			case t.Op == "app":
				for _, a := range t.Args {
					flow.Visit(a, func(u *flow.Term) {
						if flow.A(u).Key() == flow.A(flow.Base(text.Ptr)).Key() {
							dep = true
						}
					})
				}
			}
			if dep && (known == nil || !known(t)) {
				bad = true
			}
		})
	}
	return bad
}

// inComposite tells whether the path depends on what the value is contained in.
func (m *Model) inComposite(s *flow.State, xs ...flow.Lin) bool {
	in := false
	for _, h := range s.F.Hist[len(m.bounds.start.F.Hist):] {
		in = in || h.L.Coef(m.siSym) != 0 // not the first frame
	}
	own := func(a flow.Lin) bool {
		d := s.F.Norm(a.Add(m.Frames, -1).Add(m.SI, -m.FS))
		return d.IsC() && d.C >= 0 && d.C < m.FS && fieldAt(m, m.Frame, d.C) != "ParentFrameIndex"
	}
	known := map[*flow.Term]bool{}
	for _, v := range []flow.Val{m.S, m.Tokens, m.TI, m.SI} {
		flow.Visit(v, func(t *flow.Term) { known[t] = true })
	}
	vals := []flow.Val{}
	for _, h := range s.F.Hist[len(m.bounds.start.F.Hist):] {
		vals = append(vals, h)
	}
	for _, x := range xs {
		vals = append(vals, x)
	}
	for _, v := range vals {
		flow.Visit(v, func(t *flow.Term) {
			switch {
			case t.Op == "load" && flow.Base(t.Addr) == flow.Base(m.Frames):
				in = in || !own(t.Addr)
			case t.Op == "sym" && !known[t] && (strings.Contains(t.Name, "@") || t.Typ == flow.TyLen):
				in = true
			case t.Op == "load" && flow.Base(t.Addr) == flow.Base(m.Tokens.Ptr):
				i, ok := m.tokIndex(s, t.Addr.AddC(-((t.Addr.C%m.TS + m.TS) % m.TS)))
				if !ok || s.F.Decide(eq(i, m.TI)) != 1 {
					in = true // of another token
				}
			}
		})
	}
	return in
}

// infeasiblePair tells whether a kind of token never meets a frame of the type.
func (m *Model) infeasiblePair(k, e string) bool {
	switch k {
	case "Key", "ObjectEnd":
		switch e {
		case "Struct", "StructRecur", "Map", "MapRecur":
			return false
		}
		return true
	case "ArrayEnd":
		return true // the frame is an element's
	}
	return false
}
