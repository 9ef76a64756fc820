package flow

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// EntryKind is the kind of a log entry.
type EntryKind int

const (
	EStore EntryKind = iota
	EEvent
	ELoop
	EHavoc
	EMark
)

// Entry is an entry of the log of a path.
type Entry struct {
	prev *Entry
	N    int
	Kind EntryKind
	Addr Lin
	Size int64
	Typ  types.Type
	Val  Val
	Pos  token.Pos
	Ev   *Event
	Loop *LoopRec
	// Match tells whether a havoc entry may have changed an address.
	Match func(addr Lin, size int64) bool
	Ver   int
}

// Event is a call with effects.
type Event struct {
	Name string
	Args []Val
	Res  Val
	Pos  token.Pos
}

// Facts are what is known on a path.
type Facts struct {
	eq   map[*Term]Lin
	ge   []Lin // >= 0
	ne   []Lin // != 0
	bl   map[*Term]bool
	Hist []Cond
}

func (f *Facts) clone() *Facts {
	c := &Facts{eq: make(map[*Term]Lin, len(f.eq)+2), bl: make(map[*Term]bool, len(f.bl)+2)}
	for k, v := range f.eq {
		c.eq[k] = v
	}
	for k, v := range f.bl {
		c.bl[k] = v
	}
	c.ge = f.ge[:len(f.ge):len(f.ge)]
	c.ne = f.ne[:len(f.ne):len(f.ne)]
	c.Hist = f.Hist[:len(f.Hist):len(f.Hist)]
	return c
}

func (f *Facts) norm(l Lin) Lin {
	for i := 0; i < 50; i++ {
		changed := false
		for _, t := range l.T {
			if r, ok := f.eq[t.A]; ok {
				l = l.Subst(t.A, r)
				changed = true
				break
			}
		}
		if !changed {
			return l
		}
	}
	return l
}

// lower returns a lower bound of l if one is known.
func (f *Facts) lower(l Lin) (int64, bool) {
	b := l.C
	for _, t := range l.T {
		lo, hi, hasLo, hasHi := f.rangeOf(t.A)
		switch {
		case t.K > 0 && hasLo:
			b += t.K * lo
		case t.K < 0 && hasHi:
			b += t.K * hi
		default:
			return 0, false
		}
	}
	return b, true
}

func (f *Facts) rangeOf(a *Term) (lo, hi int64, hasLo, hasHi bool) {
	if a.NonNeg {
		lo, hasLo = 0, true
	}
	if a.NonZero && hasLo {
		lo = 1
	}
	if b, ok := basic(a.Typ); ok {
		switch b.Kind() {
		case types.Uint8:
			lo, hi, hasLo, hasHi = 0, 255, true, true
		case types.Bool:
		}
	}
	for _, g := range f.ge {
		if len(g.T) == 1 && g.T[0].A == a {
			// k*a + c >= 0
			k, c := g.T[0].K, g.C
			if k > 0 {
				v := ceilDiv(-c, k)
				if !hasLo || v > lo {
					lo, hasLo = v, true
				}
			} else {
				v := floorDiv(c, -k)
				if !hasHi || v < hi {
					hi, hasHi = v, true
				}
			}
		}
	}
	for _, n := range f.ne {
		if len(n.T) == 1 && n.T[0].A == a && (n.T[0].K == 1 || n.T[0].K == -1) {
			v := -n.C * n.T[0].K
			if hasLo && v == lo {
				lo++
			}
			if hasHi && v == hi {
				hi--
			}
		}
	}
	return
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func shares(a, b Lin) bool {
	for _, x := range a.T {
		for _, y := range b.T {
			if x.A == y.A {
				return true
			}
		}
	}
	return false
}

// nonneg returns true if l >= 0 is known.
func (f *Facts) nonneg(l Lin) bool {
	l = tight(f.norm(l))
	if l.IsC() {
		return l.C >= 0
	}
	if b, ok := f.lower(l); ok && b >= 0 {
		return true
	}
	// Bounds that share no unknown with l don't help.
	norm := make([]Lin, 0, len(f.ge))
	for _, g := range f.ge {
		g = tight(f.norm(g))
		norm = append(norm, g)
		if !shares(l, g) {
			continue
		}
		r := l.Add(g, -1)
		if r.IsC() {
			if r.C >= 0 {
				return true
			}
			continue
		}
		if b, ok := f.lower(r); ok && b >= 0 {
			return true
		}
	}
	for i, g := range norm {
		lg := shares(l, g)
		for _, h := range norm[i:] {
			if !lg && !shares(l, h) {
				continue
			}
			q := l.Add(g, -1).Add(h, -1)
			if q.IsC() && q.C >= 0 {
				return true
			}
			if b, ok := f.lower(q); ok && b >= 0 {
				return true
			}
		}
	}
	return false
}

// tight divides l by the greatest common divisor of its coefficients; it's
// non-negative for the same values.
func tight(l Lin) Lin {
	g := gcdOf(l)
	if g < 2 {
		return l
	}
	o := Lin{C: floorDiv(l.C, g)}
	for _, t := range l.T {
		o.T = append(o.T, LT{t.A, t.K / g})
	}
	return o
}

// reduce divides l by the greatest common divisor; it's zero for the same values.
func reduce(l Lin) Lin {
	g := gcdOf(l)
	if g > 1 && l.C%g == 0 {
		o := Lin{C: l.C / g}
		for _, t := range l.T {
			o.T = append(o.T, LT{t.A, t.K / g})
		}
		return o
	}
	return l
}

func (f *Facts) nonzero(l Lin) bool {
	l = reduce(f.norm(l))
	if l.IsC() {
		return l.C != 0
	}
	if len(l.T) == 1 && l.C == 0 && l.T[0].A.NonZero {
		return true
	}
	for _, n := range f.ne {
		n = reduce(f.norm(n))
		if n.Eq(l) || n.Eq(l.Neg()) {
			return true
		}
	}
	// Divisibility.
	if g := gcdOf(l); g > 1 && l.C%g != 0 {
		return true
	}
	return f.nonneg(l.AddC(-1)) || f.nonneg(l.Neg().AddC(-1))
}

func gcdOf(l Lin) int64 {
	var g int64
	for _, t := range l.T {
		a, b := g, t.K
		if b < 0 {
			b = -b
		}
		for b != 0 {
			a, b = b, a%b
		}
		g = a
	}
	return g
}

// Decide returns 1 if c is known to hold, -1 if its opposite is, or 0.
func (f *Facts) Decide(c Cond) int {
	switch c.Op {
	case True:
		return 1
	case False:
		return -1
	case IS, NOT:
		v, ok := f.bl[c.T]
		if !ok {
			return 0
		}
		if v == (c.Op == IS) {
			return 1
		}
		return -1
	case EQ, NE:
		l := f.norm(c.L)
		r := 0
		if l.IsC() && l.C == 0 {
			r = 1
		} else if f.nonzero(l) {
			r = -1
		} else if f.nonneg(l) && f.nonneg(l.Neg()) {
			r = 1
		}
		if c.Op == NE {
			r = -r
		}
		return r
	case GE:
		l := f.norm(c.L)
		if f.nonneg(l) {
			return 1
		}
		if f.nonneg(l.Neg().AddC(-1)) {
			return -1
		}
		return 0
	}
	return 0
}

// Assume adds c; false is returned if it contradicts.
func (f *Facts) Assume(c Cond) bool {
	switch f.Decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	f.Hist = append(f.Hist, c)
	switch c.Op {
	case IS, NOT:
		f.bl[c.T] = c.Op == IS
		if c.Op == IS && c.T.Op == "app" && c.T.Name == "eqstr" {
			x, ok := c.T.Args[0].(Str)
			y, ok2 := c.T.Args[1].(Str)
			if ok && ok2 {
				h := f.Hist
				r := f.Assume(Cond{Op: EQ, L: x.Len.Add(y.Len, -1)})
				f.Hist = h
				return r
			}
		}
	case EQ:
		l := reduce(f.norm(c.L))
		// Solve for the youngest atom with a unit coefficient.
		for i := len(l.T) - 1; i >= 0; i-- {
			t := l.T[i]
			if t.K == 1 || t.K == -1 {
				r := Lin{C: l.C}
				for j, u := range l.T {
					if j != i {
						r.T = append(r.T, u)
					}
				}
				f.eq[t.A] = r.Mul(-t.K)
				return true
			}
		}
		f.ge = append(f.ge, l, l.Neg())
	case NE:
		f.ne = append(f.ne, reduce(f.norm(c.L)))
	case GE:
		l := f.norm(c.L)
		f.ge = append(f.ge, l)
		if f.nonneg(l.Neg()) {
			// Exactly zero.
			h := f.Hist
			f.Assume(Cond{Op: EQ, L: l})
			f.Hist = h
		}
	}
	return true
}

// State is an abstract state of one path.
type State struct {
	F      *Facts
	Log    *Entry
	Calls  []*Call
	Loops  []*LoopCtx
	Defers []*deferred
	Note   string
}

type deferred struct {
	depth int
	fn    Val
	args  []Val
}

// Call is an activation.
type Call struct {
	Fn    *ssa.Function
	Block *ssa.BasicBlock
	Prev  *ssa.BasicBlock
	PC    int
	Env   map[ssa.Value]Val
	Site  ssa.Instruction           // of the caller
	Ret   func(s *State, res []Val) // instead of a call site
}

func (s *State) clone() *State {
	c := &State{F: s.F.clone(), Log: s.Log, Note: s.Note}
	for _, k := range s.Calls {
		n := *k
		n.Env = make(map[ssa.Value]Val, len(k.Env)+8)
		for a, b := range k.Env {
			n.Env[a] = b
		}
		c.Calls = append(c.Calls, &n)
	}
	c.Loops = append([]*LoopCtx(nil), s.Loops...)
	c.Defers = append([]*deferred(nil), s.Defers...)
	return c
}

func (s *State) top() *Call { return s.Calls[len(s.Calls)-1] }

func (s *State) push(e *Entry) {
	e.prev = s.Log
	e.N = 1
	if s.Log != nil {
		e.N = s.Log.N + 1
	}
	s.Log = e
}

// Entries returns the log after mark, oldest first.
func Entries(log, mark *Entry) []*Entry {
	var out []*Entry
	for e := log; e != nil && e != mark; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// fork is panicked with to partition the state by a condition.
type fork struct{ c Cond }

// stop is panicked with when the analysis can't continue.
type stop struct {
	rule, msg string
	pos       token.Pos
}

func (e *Eng) fail(rule, format string, args ...any) {
	panic(stop{rule: rule, msg: fmt.Sprintf(format, args...)})
}

// require decides c or partitions the state.
func (s *State) require(c Cond) bool {
	switch s.F.Decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	panic(fork{c})
}

// --- memory ---

func basic(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func isPtrType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// base returns the pointer atom an address is derived from.
func base(l Lin) *Term {
	var b *Term
	for _, t := range l.T {
		if t.K == 1 && (t.A.Op == "alloc" || t.A.Op == "glob" || isPtrType(t.A.Typ)) {
			if b != nil {
				return nil
			}
			b = t.A
		}
	}
	return b
}

// Region is the part of the memory an address belongs to.
func Region(l Lin) string {
	b := base(l)
	if b == nil {
		return ""
	}
	if b.region == "" {
		b.region = b.findRegion()
	}
	return b.region
}

func (b *Term) findRegion() string {
	switch b.Op {
	case "alloc", "glob":
		return b.Op + ":" + b.Name
	}
	switch u := b.Typ.Underlying().(type) {
	case *types.Pointer:
		return "T:" + types.TypeString(u.Elem(), nil)
	case *types.Map:
		return "map"
	}
	return "user"
}

func fresh(b *Term) bool { return b != nil && (b.Op == "alloc" || b.Op == "app" && b.NonZero) }

// mayAlias: 0 disjoint, 1 the same, 2 possibly overlapping.
func (e *Eng) alias(s *State, a Lin, an int64, b Lin, bn int64) int {
	ba, bb := base(a), base(b)
	if ba != bb {
		ra, rb := Region(a), Region(b)
		if ra != rb || ra == "user" || fresh(ba) || fresh(bb) {
			if ra == "" || rb == "" {
				return 2
			}
			return 0
		}
		return 2
	}
	d := s.F.norm(a.Add(b, -1))
	if d.IsC() {
		switch {
		case d.C == 0 && an == bn:
			return 1
		case d.C >= bn || -d.C >= an:
			return 0
		}
		return 2
	}
	if g := gcdOf(d); g > 1 {
		r := ((d.C % g) + g) % g
		if r >= bn && r+an <= g {
			return 0
		}
		if r == 0 && an == bn && s.F.nonzero(d) {
			return 0
		}
		// Whole elements: a structure of g bytes is never partly overlapped.
	}
	if s.F.nonneg(d.AddC(-bn)) || s.F.nonneg(d.Neg().AddC(-an)) {
		return 0
	}
	return 2
}

func (e *Eng) sizeof(t types.Type) int64 { return e.Sizes.Sizeof(t) }

type piece struct {
	off  int64
	size int64
	typ  types.Type
	val  Val
}

var (
	tyBytePtr = types.NewPointer(types.Typ[types.Byte])
	tyInt     = types.Typ[types.Int]
)

// Word is the size of a pointer.
func (e *Eng) Word() int64 { return e.Sizes.Sizeof(types.Typ[types.Uintptr]) }

// flatten splits a value into scalars; v may be nil to get the layout.
func (e *Eng) flatten(t types.Type, v Val, off int64, out *[]piece) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			var p, l Val
			if v != nil {
				s := v.(Str)
				p, l = s.Ptr, s.Len
			}
			w := e.Word()
			*out = append(*out, piece{off, w, tyBytePtr, p}, piece{off + w, w, tyLen, l})
			return
		}
	case *types.Slice:
		var p, l, c Val
		if v != nil {
			s := e.asSlice(v)
			p, l, c = s.Ptr, s.Len, s.Cap
		}
		w := e.Word()
		*out = append(*out, piece{off, w, types.NewPointer(u.Elem()), p},
			piece{off + w, w, tyLen, l}, piece{off + 2*w, w, tyLen, c})
		return
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := e.Sizes.Offsetsof(fs)
		for i, f := range fs {
			var x Val
			if v != nil {
				x = v.(Agg).F[i]
			}
			e.flatten(f.Type(), x, off+offs[i], out)
		}
		return
	case *types.Array:
		if u.Len() > 32 {
			e.fail("undecided", "large array")
		}
		sz := e.sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			var x Val
			if v != nil {
				x = v.(Agg).F[i]
			}
			e.flatten(u.Elem(), x, off+i*sz, out)
		}
		return
	}
	*out = append(*out, piece{off, e.sizeof(t), t, v})
}

// tyLen marks length and capacity words.
var tyLen types.Type = types.NewNamed(types.NewTypeName(0, nil, "len", nil), types.Typ[types.Int], nil)

// unflatten is the inverse of flatten.
func (e *Eng) unflatten(t types.Type, next func() Val) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{next().(Lin), next().(Lin)}
		}
	case *types.Slice:
		return Sl{next().(Lin), next().(Lin), next().(Lin)}
	case *types.Struct:
		var a Agg
		for i := 0; i < u.NumFields(); i++ {
			a.F = append(a.F, e.unflatten(u.Field(i).Type(), next))
		}
		return a
	case *types.Array:
		var a Agg
		for i := int64(0); i < u.Len(); i++ {
			a.F = append(a.F, e.unflatten(u.Elem(), next))
		}
		return a
	}
	return next()
}

func (e *Eng) asSlice(v Val) Sl {
	switch v := v.(type) {
	case Sl:
		return v
	case Lin:
		if v.IsC() && v.C == 0 {
			return Sl{}
		}
	}
	e.fail("undecided", "not a slice: %s", Show(v))
	return Sl{}
}

// Store writes v of type t.
func (e *Eng) Store(s *State, addr Lin, t types.Type, v Val, pos token.Pos) {
	if b := base(addr); b == nil {
		if n := s.F.norm(addr); n.IsC() {
			panic(stop{rule: "panic", msg: "write through a nil pointer"})
		}
		e.fail("undecided", "write to an unresolved address %s", Show(addr))
	}
	var ps []piece
	e.flatten(t, v, 0, &ps)
	for _, p := range ps {
		s.push(&Entry{Kind: EStore, Addr: addr.AddC(p.off), Size: p.size, Typ: p.typ, Val: p.val, Pos: pos})
	}
}

// Load reads a value of type t.
func (e *Eng) Load(s *State, addr Lin, t types.Type) Val {
	addr = s.F.norm(addr)
	if base(addr) == nil {
		if addr.IsC() {
			panic(stop{rule: "panic", msg: "read through a nil pointer"})
		}
		e.fail("undecided", "read from an unresolved address %s", Show(addr))
	}
	var ps []piece
	e.flatten(t, nil, 0, &ps)
	i := 0
	return e.unflatten(t, func() Val {
		p := ps[i]
		i++
		return e.loadScalar(s, addr.AddC(p.off), p.size, p.typ)
	})
}

func (e *Eng) loadScalar(s *State, addr Lin, size int64, t types.Type) Val {
	for en := s.Log; en != nil; en = en.prev {
		switch en.Kind {
		case EStore:
			switch e.alias(s, addr, size, en.Addr, en.Size) {
			case 1:
				return e.retype(en.Val, en.Typ, t)
			case 2:
				d := s.F.norm(addr.Add(en.Addr, -1))
				if i, ok := en.Val.(Iface); ok && size == e.Word() && d.IsC() && d.C == size {
					return e.wrap(e.App("dataword", t, i), t)
				}
				if d.IsC() || base(addr) != base(en.Addr) || size != en.Size {
					return e.initial(s, addr, t, en.N+1000)
				}
				panic(fork{Cond{Op: EQ, L: d}})
			}
		case ELoop:
			if v := en.Loop.mayWrite(e, s, addr, size); v {
				return e.initial(s, addr, t, en.Loop.Ver)
			}
		case EHavoc:
			if en.Match(addr, size) {
				return e.initial(s, addr, t, en.Ver)
			}
		}
	}
	return e.initial(s, addr, t, 0)
}

// retype converts between scalar views of the same word.
func (e *Eng) retype(v Val, from, to types.Type) Val {
	switch to.Underlying().(type) {
	case *types.Interface:
		if _, ok := v.(Iface); !ok {
			e.fail("undecided", "reinterpretation of a word as an interface")
		}
	}
	if b, ok := basic(to); ok && b.Info()&types.IsBoolean != 0 {
		if l, ok := v.(Lin); ok {
			if l.IsC() {
				return boolVal(l.C != 0)
			}
			return Cond{Op: NE, L: l}
		}
	} else if c, ok := v.(Cond); ok {
		switch c.Op {
		case True:
			return C(1)
		case False:
			return C(0)
		}
	}
	return v
}

// initial is the value memory had at a version.
func (e *Eng) initial(s *State, addr Lin, t types.Type, ver int) Val {
	b := base(addr)
	if b != nil && ver == 0 {
		if b.Op == "alloc" {
			return e.zero(t)
		}
		if b.Op == "glob" && b.G != nil {
			if v, ok := e.globalValue(s, b.G, addr.Add(A(b), -1), t); ok {
				return v
			}
		}
		if b.Op == "app" && e.ZeroedResult != nil && e.ZeroedResult(b) {
			return e.zero(t)
		}
	}
	return e.wrap(e.loadTerm(addr, t, ver), t)
}

func (e *Eng) loadTerm(addr Lin, t types.Type, ver int) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Uint8 {
		t = types.Typ[types.Uint8] // instead of byte
	}
	if Region(addr) == "user" {
		// Slices may be read as such or by parts.
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = types.Typ[types.UnsafePointer]
		case *types.Basic:
			if u.Kind() == types.Uintptr {
				t = tyLen
			}
		}
	}
	key := fmt.Sprintf("load %s %s %d", addr.Key(), types.TypeString(t, nil), ver)
	if e.OnLoad != nil {
		defer func() { e.OnLoad(e.Ts.m[key]) }()
	}
	return e.Ts.get(key, func() *Term {
		tm := &Term{Op: "load", Addr: addr, Ver: ver, Typ: t}
		if t == tyLen {
			tm.NonNeg = true
		}
		if b, ok := basic(t); ok && b.Info()&types.IsUnsigned != 0 {
			tm.NonNeg = true
		}
		if e.NameLoad != nil {
			tm.Name = e.NameLoad(addr, t)
		}
		if e.Axioms != nil {
			e.Axioms(tm)
		}
		return tm
	})
}

// Clone copies a state.
func (s *State) Clone() *State { return s.clone() }

// Push adds an entry to the log.
func (s *State) Push(e *Entry) { s.push(e) }

// ResetLog forgets all writes.
func (s *State) ResetLog() { s.Log = nil }

// Require decides c or partitions the path.
func (s *State) Require(c Cond) bool { return s.require(c) }

// Base is the pointer an address is derived from.
func Base(l Lin) *Term { return base(l) }

// Norm rewrites l by the equalities known.
func (f *Facts) Norm(l Lin) Lin { return f.norm(l) }

// CloneFacts copies the facts.
func (f *Facts) Clone() *Facts { return f.clone() }

// AppVal makes a value of the result of an application.
func (e *Eng) AppVal(app *Term, t types.Type) Val { return e.appVal(app, t) }

// SymVal is an unknown value of type t.
func (e *Eng) SymVal(name string, t types.Type) Val { return e.symVal(name, t) }

// Zero is the zero value of t.
func (e *Eng) Zero(t types.Type) Val { return e.zero(t) }

// ToStr is the string or byte slice v as a string.
func (e *Eng) ToStr(v Val) Str { return e.content(e.toStr(v)) }

// Stop ends the path.
func Stop(rule, msg string) { panic(stop{rule: rule, msg: msg}) }

// TyLen is the type of lengths.
var TyLen = tyLen

// wrap makes a value of type t of a scalar term.
func (e *Eng) wrap(tm *Term, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Cond{Op: IS, T: tm}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return tm
		}
		return A(tm)
	case *types.Interface:
		return Iface{TW: A(tm)}
	case *types.Signature:
		return tm
	case *types.Pointer, *types.Map, *types.Chan:
		return A(tm)
	}
	e.fail("undecided", "value of type %s", t)
	return nil
}

// zero is the zero value of t.
func (e *Eng) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolVal(false)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return e.Sym("0.0", t)
		}
		return C(0)
	case *types.Slice:
		return Sl{}
	case *types.Struct:
		var a Agg
		for i := 0; i < u.NumFields(); i++ {
			a.F = append(a.F, e.zero(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		if u.Len() > 32 {
			e.fail("undecided", "large array")
		}
		var a Agg
		for i := int64(0); i < u.Len(); i++ {
			a.F = append(a.F, e.zero(u.Elem()))
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		var a Tuple
		for i := 0; i < u.Len(); i++ {
			a.F = append(a.F, e.zero(u.At(i).Type()))
		}
		return a
	}
	return C(0)
}

// Sym is a named unknown.
func (e *Eng) Sym(name string, t types.Type) *Term {
	return e.Ts.get("sym "+name, func() *Term { return &Term{Op: "sym", Name: name, Typ: t} })
}

// symVal makes an unknown value of type t.
func (e *Eng) symVal(name string, t types.Type) Val {
	var ps []piece
	e.flatten(t, nil, 0, &ps)
	i := 0
	return e.unflatten(t, func() Val {
		p := ps[i]
		n := name
		if len(ps) > 1 {
			n = fmt.Sprintf("%s.%d", name, i)
		}
		i++
		tm := e.Sym(n, p.typ)
		if b, ok := basic(p.typ); p.typ == tyLen || ok && b.Info()&types.IsUnsigned != 0 {
			tm.NonNeg = true
		}
		return e.wrap(tm, p.typ)
	})
}

// App is the result of an uninterpreted function.
func (e *Eng) App(name string, t types.Type, args ...Val) *Term {
	tn := ""
	if t != nil {
		tn = types.TypeString(t, nil)
	}
	return e.Ts.get(keys("app "+name+" "+tn+"(", args), func() *Term {
		tm := &Term{Op: "app", Name: name, Args: args, Typ: t}
		if b, ok := basic(t); ok && b.Info()&types.IsUnsigned != 0 {
			tm.NonNeg = true
		}
		return tm
	})
}

// appVal makes a value of type t whose parts are projections of an application.
func (e *Eng) appVal(app *Term, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 1 {
			return e.appVal(app, tt.At(0).Type())
		}
		var out Tuple
		for i := 0; i < tt.Len(); i++ {
			out.F = append(out.F, e.projVal(app, fmt.Sprint(i), tt.At(i).Type()))
		}
		return out
	}
	return e.projVal(app, "", t)
}

func (e *Eng) projVal(app *Term, name string, t types.Type) Val {
	var ps []piece
	e.flatten(t, nil, 0, &ps)
	i := 0
	return e.unflatten(t, func() Val {
		p := ps[i]
		n := name
		if len(ps) > 1 {
			n = fmt.Sprintf("%s%c", name, "plcdefgh"[i%8])
		}
		i++
		var tm *Term
		if n == "" {
			app.Typ = p.typ
			tm = app
		} else {
			tm = e.Ts.get(fmt.Sprintf("proj %d %s", app.ID, n), func() *Term {
				return &Term{Op: "proj", Name: n, Args: []Val{app}, Typ: p.typ}
			})
		}
		if b, ok := basic(p.typ); p.typ == tyLen || ok && b.Info()&types.IsUnsigned != 0 {
			tm.NonNeg = true
		}
		return e.wrap(tm, p.typ)
	})
}
