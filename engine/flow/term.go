// Package flow is an abstract interpreter over the SSA form of the decoder. Its
// domain are linear forms over hash-consed terms (value numbering) for integers
// and byte addresses, a log of memory writes per abstract path, and summaries
// for loops. It partitions by branch outcomes and decides branches by the facts
// established so far on the path.
package flow

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{ Key() string }

// Term is an atom: an unknown with an identity.
type Term struct {
	region string // caches Region

	ID      int
	Op      string // sym, load, app, proj, alloc, glob, str
	Name    string
	Args    []Val
	Typ     types.Type // of the value, pointer atoms have the type of the pointer
	Addr    Lin        // of loads
	Ver     int        // of loads
	NonNeg  bool
	NonZero bool
	G       *ssa.Global
}

func (t *Term) Key() string { return fmt.Sprintf("#%d", t.ID) }

// Terms interns terms.
type Terms struct {
	m    map[string]*Term
	list []*Term
}

func (ts *Terms) get(key string, mk func() *Term) *Term {
	if ts.m == nil {
		ts.m = map[string]*Term{}
	}
	if t := ts.m[key]; t != nil {
		return t
	}
	t := mk()
	t.ID = len(ts.list)
	ts.list = append(ts.list, t)
	ts.m[key] = t
	return t
}

// Lin is a linear form.
type Lin struct {
	C int64
	T []LT
}

// LT is a term of a linear form.
type LT struct {
	A *Term
	K int64
}

func C(c int64) Lin            { return Lin{C: c} }
func A(t *Term) Lin            { return Lin{T: []LT{{t, 1}}} }
func (l Lin) IsC() bool        { return len(l.T) == 0 }
func (l Lin) Neg() Lin         { return l.Mul(-1) }
func (l Lin) AddC(c int64) Lin { return Lin{l.C + c, l.T} }

func (l Lin) Add(o Lin, k int64) Lin {
	out := Lin{C: l.C + o.C*k}
	i, j := 0, 0
	for i < len(l.T) || j < len(o.T) {
		switch {
		case j >= len(o.T) || i < len(l.T) && l.T[i].A.ID < o.T[j].A.ID:
			out.T = append(out.T, l.T[i])
			i++
		case i >= len(l.T) || o.T[j].A.ID < l.T[i].A.ID:
			if k != 0 {
				out.T = append(out.T, LT{o.T[j].A, o.T[j].K * k})
			}
			j++
		default:
			if s := l.T[i].K + o.T[j].K*k; s != 0 {
				out.T = append(out.T, LT{l.T[i].A, s})
			}
			i, j = i+1, j+1
		}
	}
	return out
}

func (l Lin) Mul(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	out := Lin{C: l.C * k}
	for _, t := range l.T {
		out.T = append(out.T, LT{t.A, t.K * k})
	}
	return out
}

func (l Lin) Eq(o Lin) bool {
	if l.C != o.C || len(l.T) != len(o.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != o.T[i] {
			return false
		}
	}
	return true
}

// Coef is the coefficient of a.
func (l Lin) Coef(a *Term) int64 {
	for _, t := range l.T {
		if t.A == a {
			return t.K
		}
	}
	return 0
}

// Subst replaces a by r.
func (l Lin) Subst(a *Term, r Lin) Lin {
	k := l.Coef(a)
	if k == 0 {
		return l
	}
	out := Lin{C: l.C}
	for _, t := range l.T {
		if t.A != a {
			out.T = append(out.T, t)
		}
	}
	return out.Add(r, k)
}

func (l Lin) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.C)
	for _, t := range l.T {
		fmt.Fprintf(&b, "+%d*#%d", t.K, t.A.ID)
	}
	return b.String()
}

// Cond is a boolean.
type Cond struct {
	Op CondOp
	L  Lin
	T  *Term
}

// CondOp is the kind of a condition.
type CondOp int

const (
	False CondOp = iota
	True
	EQ // L == 0
	NE
	GE // L >= 0
	IS // boolean atom
	NOT
)

func (c Cond) Key() string {
	switch c.Op {
	case False:
		return "false"
	case True:
		return "true"
	case EQ, NE, GE:
		return [...]string{"", "", "eq ", "ne ", "ge "}[c.Op] + c.L.Key()
	case IS:
		return "is " + c.T.Key()
	}
	return "not " + c.T.Key()
}

// Negate returns the opposite.
func (c Cond) Negate() Cond {
	switch c.Op {
	case False:
		return Cond{Op: True}
	case True:
		return Cond{Op: False}
	case EQ:
		return Cond{Op: NE, L: c.L}
	case NE:
		return Cond{Op: EQ, L: c.L}
	case GE:
		return Cond{Op: GE, L: c.L.Neg().AddC(-1)}
	case IS:
		return Cond{Op: NOT, T: c.T}
	}
	return Cond{Op: IS, T: c.T}
}

func boolVal(b bool) Cond {
	if b {
		return Cond{Op: True}
	}
	return Cond{Op: False}
}

type (
	// Str is a string.
	Str struct {
		Ptr, Len Lin
	}
	// Sl is a slice.
	Sl struct {
		Ptr, Len, Cap Lin
	}
	// Agg is a struct or an array.
	Agg struct{ F []Val }
	// Iface is an interface value: TW is zero if it's nil, T is set if the
	// dynamic type is known.
	Iface struct {
		TW Lin
		T  types.Type
		V  Val
	}
	// Fn is a function with bound variables.
	Fn struct {
		Fn   *ssa.Function
		Free []Val
	}
	// Tuple is a multiple result.
	Tuple struct{ F []Val }
	// Built is a builtin function.
	Built struct{ B *ssa.Builtin }
)

func keys(p string, vs []Val) string {
	var b strings.Builder
	b.WriteString(p)
	for _, v := range vs {
		b.WriteString(v.Key())
		b.WriteByte(',')
	}
	b.WriteByte(')')
	return b.String()
}

func (s Str) Key() string   { return "str(" + s.Ptr.Key() + "," + s.Len.Key() + ")" }
func (s Sl) Key() string    { return "sl(" + s.Ptr.Key() + "," + s.Len.Key() + "," + s.Cap.Key() + ")" }
func (a Agg) Key() string   { return keys("agg(", a.F) }
func (t Tuple) Key() string { return keys("tup(", t.F) }
func (b Built) Key() string { return "builtin " + b.B.Name() }
func (i Iface) Key() string {
	if i.T == nil {
		return "iface(" + i.TW.Key() + ")"
	}
	return "iface(" + i.T.String() + "," + i.V.Key() + ")"
}
func (f Fn) Key() string { return keys("fn "+f.Fn.String()+"(", f.Free) }

// atoms collects the atoms of v.
func atoms(v Val, f func(*Term)) {
	lin := func(l Lin) {
		for _, t := range l.T {
			f(t.A)
		}
	}
	switch v := v.(type) {
	case Lin:
		lin(v)
	case Str:
		lin(v.Ptr)
		lin(v.Len)
	case Sl:
		lin(v.Ptr)
		lin(v.Len)
		lin(v.Cap)
	case Agg:
		for _, x := range v.F {
			atoms(x, f)
		}
	case Tuple:
		for _, x := range v.F {
			atoms(x, f)
		}
	case Iface:
		lin(v.TW)
		if v.V != nil {
			atoms(v.V, f)
		}
	case Fn:
		for _, x := range v.Free {
			atoms(x, f)
		}
	case Cond:
		lin(v.L)
		if v.T != nil {
			f(v.T)
		}
	case *Term:
		f(v)
	}
}

// mentions returns true if v depends on a term that satisfies p.
func mentions(v Val, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	found := false
	var visit func(t *Term)
	visit = func(t *Term) {
		if found || seen[t] {
			return
		}
		seen[t] = true
		if p(t) {
			found = true
			return
		}
		for _, a := range t.Args {
			atoms(a, visit)
		}
		atoms(t.Addr, visit)
	}
	atoms(v, visit)
	return found
}

// Show renders v for reports.
func Show(v Val) string {
	s := show(v, 0)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func showLin(l Lin, d int) string {
	var b strings.Builder
	for i, t := range l.T {
		switch {
		case t.K == 1 && i > 0:
			b.WriteString("+")
		case t.K == 1:
		case t.K == -1:
			b.WriteString("-")
		default:
			if i > 0 && t.K > 0 {
				b.WriteString("+")
			}
			fmt.Fprintf(&b, "%d*", t.K)
		}
		b.WriteString(showTerm(t.A, d))
	}
	if l.C != 0 || len(l.T) == 0 {
		if l.C > 0 && len(l.T) > 0 {
			b.WriteString("+")
		}
		fmt.Fprintf(&b, "%d", l.C)
	}
	return b.String()
}

func showTerm(t *Term, d int) string {
	if d > 6 {
		return "…"
	}
	switch t.Op {
	case "load":
		v := ""
		if t.Ver > 0 {
			v = fmt.Sprintf("@%d", t.Ver)
		}
		if t.Name != "" {
			return t.Name + v
		}
		return "[" + showLin(t.Addr, d+1) + "]" + v
	case "app":
		var as []string
		for _, a := range t.Args {
			as = append(as, show(a, d+1))
		}
		return t.Name + "(" + strings.Join(as, ", ") + ")"
	case "proj":
		return show(t.Args[0], d+1) + "." + t.Name
	}
	return t.Name
}

func show(v Val, d int) string {
	switch v := v.(type) {
	case Lin:
		return showLin(v, d)
	case Str:
		return "str(" + showLin(v.Ptr, d) + ", len " + showLin(v.Len, d) + ")"
	case Sl:
		return "slice(" + showLin(v.Ptr, d) + ", len " + showLin(v.Len, d) + ")"
	case Agg, Tuple:
		var fs []Val
		if a, ok := v.(Agg); ok {
			fs = a.F
		} else {
			fs = v.(Tuple).F
		}
		var as []string
		for _, a := range fs {
			as = append(as, show(a, d+1))
		}
		return "{" + strings.Join(as, ", ") + "}"
	case Iface:
		if v.T == nil {
			return "iface(" + showLin(v.TW, d) + ")"
		}
		return v.T.String() + "(" + show(v.V, d+1) + ")"
	case Fn:
		return v.Fn.Name()
	case Cond:
		switch v.Op {
		case EQ:
			return showLin(v.L, d) + " == 0"
		case NE:
			return showLin(v.L, d) + " != 0"
		case GE:
			return showLin(v.L, d) + " >= 0"
		case IS:
			return showTerm(v.T, d)
		case NOT:
			return "!" + showTerm(v.T, d)
		}
		return v.Key()
	case *Term:
		return showTerm(v, d)
	case nil:
		return "nothing"
	}
	return v.Key()
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}
