package flow

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// LoopCtx is a loop being executed on a path.
type LoopCtx struct {
	Head  *ssa.BasicBlock
	Depth int // number of activations
	Trial bool
	Cut   bool // the head is where a step ends
	Rec   *LoopRec
}

// CompKind tells how a component of the state changes in a loop.
type CompKind int

const (
	Inv CompKind = iota // never
	Ind                 // by a constant per iteration
	Gen                 // arbitrarily
	Cur                 // of a slice that's cut off at the front
)

// Comp is a scalar component of a variable of a loop.
type Comp struct {
	Name  string
	Kind  CompKind
	Delta Lin
	Init  Val
	Val   Val // at the head, in iteration N
	Typ   types.Type
	Cell  *Lin // of memory cells
	Size  int64
	Phi   *ssa.Phi
	Sym   *Term
}

// Back is a way an iteration ends with another one.
type Back struct {
	S       *State
	Hist    []Cond
	Entries []*Entry
	Next    []Val
}

// LoopRec summarizes the iterations before the N-th one.
type LoopRec struct {
	ID    int
	Ver   int
	Fn    *ssa.Function
	Head  *ssa.BasicBlock
	N     *Term
	Comps []*Comp
	Backs []*Back
	Pos   string
	Entry *State // before the loop

	prev    []*Back // of the previous round, to know what's written
	mark    *Entry
	hist    int
	final   bool
	firstID int
	invs    []Lin
}

func (r *LoopRec) idOr0() int {
	if r == nil {
		return 0
	}
	return r.ID
}

func (e *Eng) loops(fn *ssa.Function) {
	if e.heads == nil {
		e.heads = map[*ssa.Function]map[*ssa.BasicBlock]bool{}
		e.loopBlocks = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	if e.heads[fn] != nil {
		return
	}
	hs := map[*ssa.BasicBlock]bool{}
	e.heads[fn] = hs
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			hs[h] = true
			set := e.loopBlocks[h]
			if set == nil {
				set = map[*ssa.BasicBlock]bool{h: true}
				e.loopBlocks[h] = set
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if set[x] {
					continue
				}
				set[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
}

func (e *Eng) isHead(b *ssa.BasicBlock) bool {
	e.loops(b.Parent())
	return e.heads[b.Parent()][b]
}

func (e *Eng) loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	e.loops(h.Parent())
	return e.loopBlocks[h]
}

func (r *LoopRec) addBack(e *Eng, s *State, vals map[*ssa.Phi]Val) {
	if r.final {
		return
	}
	b := &Back{S: s, Hist: s.F.Hist[r.hist:], Entries: Entries(s.Log, r.mark)}
	for i := 0; i < len(r.Comps); {
		c := r.Comps[i]
		if c.Cell != nil {
			b.Next = append(b.Next, e.loadScalar(s, *c.Cell, c.Size, c.Typ))
			i++
			continue
		}
		var ps []piece
		e.flatten(c.Phi.Type(), vals[c.Phi], 0, &ps)
		for _, p := range ps {
			b.Next = append(b.Next, p.val)
			i++
		}
	}
	r.Backs = append(r.Backs, b)
}

func normVal(f *Facts, v Val) Val {
	if l, ok := v.(Lin); ok {
		return f.norm(l)
	}
	return v
}

// enterLoop replaces the values at the head of a loop by those of an arbitrary
// iteration.
func (e *Eng) enterLoop(s *State, c *Call, head *ssa.BasicBlock, phis []*ssa.Phi, vals map[*ssa.Phi]Val) *Outcome {
	e.nver++
	id := e.nver
	kinds := map[string]CompKind{}
	deltas := map[string]Lin{}
	type cellDef struct {
		addr Lin
		size int64
		typ  types.Type
	}
	cells := map[string]cellDef{}
	var cellOrder []string
	var invs []Lin
	var prev []*Back
	mono := map[string]bool{} // false if it's not monotone
	notCur := map[*ssa.Phi]bool{}
	build := func(st *State) *LoopRec {
		e.nver++
		r := &LoopRec{ID: id, Ver: e.nver, Fn: c.Fn, Head: head, Pos: e.PosOf(e.curPos), prev: prev, Entry: s, invs: invs}
		r.firstID = len(e.Ts.list)
		r.N = e.Sym(fmt.Sprintf("n%d", r.Ver), tyLen)
		r.N.NonNeg = true
		mk := func(name string, typ types.Type, init Val) *Comp {
			cp := &Comp{Name: name, Typ: typ, Init: normVal(st.F, init), Kind: Gen}
			if k, ok := kinds[name]; ok {
				cp.Kind = k
			}
			switch cp.Kind {
			case Inv:
				cp.Val = cp.Init
			case Ind:
				cp.Delta = deltas[name]
				l := cp.Init.(Lin)
				cp.Val = l.Add(A(r.N), cp.Delta.C)
			case Gen:
				cp.Sym = e.Sym(fmt.Sprintf("%s@%d", name, r.Ver), typ)
				if b, ok := basic(typ); typ == tyLen || ok && b.Info()&types.IsUnsigned != 0 {
					cp.Sym.NonNeg = true
				}
				cp.Val = e.wrap(cp.Sym, typ)
			}
			return cp
		}
		for _, p := range phis {
			var ps []piece
			e.flatten(p.Type(), vals[p], 0, &ps)
			var cur *Term
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && e.Cursors && len(ps) == 3 && !notCur[p] {
				cur = e.Sym(fmt.Sprintf("%s.%s@%d", p.Name(), p.Comment, r.Ver), tyLen)
				cur.NonNeg = true
				for i, pc := range ps {
					in, _ := normVal(st.F, pc.val).(Lin)
					k := int64(-1)
					if i == 0 {
						k = e.sizeof(sl.Elem())
					}
					r.Comps = append(r.Comps, &Comp{Name: fmt.Sprintf("%s.%s.%d", p.Name(), p.Comment, i), Typ: pc.typ, Init: in, Kind: Cur, Phi: p, Sym: cur, Delta: C(k), Val: in.Add(A(cur), k)})
				}
				continue
			}
			for i, pc := range ps {
				name := fmt.Sprintf("%s.%s", p.Name(), p.Comment)
				if len(ps) > 1 {
					name = fmt.Sprintf("%s.%d", name, i)
				}
				cp := mk(name, pc.typ, pc.val)
				cp.Phi = p
				r.Comps = append(r.Comps, cp)
			}
		}
		for _, k := range cellOrder {
			d := cells[k]
			a := d.addr
			cp := mk("cell "+k, d.typ, e.loadScalar(st, a, d.size, d.typ))
			cp.Cell, cp.Size = &a, d.size
			r.Comps = append(r.Comps, cp)
		}
		return r
	}
	// setup puts st at the head in an arbitrary iteration.
	setup := func(st *State, r *LoopRec, trial bool) {
		st.push(&Entry{Kind: ELoop, Loop: r, Ver: r.Ver})
		for _, cp := range r.Comps {
			if cp.Cell != nil {
				st.push(&Entry{Kind: EStore, Addr: *cp.Cell, Size: cp.Size, Typ: cp.Typ, Val: cp.Val})
			}
		}
		if !r.final {
			r.mark, r.hist = st.Log, len(st.F.Hist)
		}
		for _, cp := range r.Comps {
			if l, ok := cp.Val.(Lin); ok && mono[cp.Name] {
				st.F.Assume(Cond{Op: GE, L: l.Add(cp.Init.(Lin), -1)})
			}
		}
		for _, l := range r.invs {
			st.F.Assume(Cond{Op: GE, L: l.Subst(e.Sym("n", tyLen), A(r.N))})
		}
		if !r.final {
			r.hist = len(st.F.Hist)
		}
		i := 0
		k := st.top()
		for _, p := range phis {
			k.Env[p] = e.unflatten(p.Type(), func() Val { i++; return r.Comps[i-1].Val })
		}
		k.Prev, k.Block, k.PC = c.Block, head, len(phis)
		st.Loops = append(st.Loops, &LoopCtx{Head: head, Depth: len(st.Calls), Trial: trial, Rec: r})
	}
	var rec *LoopRec
	for round := 0; ; round++ {
		if round > 8 {
			e.fail("undecided", "the loop isn't summarized")
		}
		r := build(s)
		t := s.clone()
		setup(t, r, true)
		e.LoopSums++
		e.Explore(t)
		rec = r
		// Classify.
		changed := false
		for i, cp := range r.Comps {
			if cp.Kind == Cur {
				if i > 0 && r.Comps[i-1].Phi == cp.Phi {
					continue
				}
				for _, b := range r.Backs {
					if _, ok := r.cursor(b, i); !ok && !notCur[cp.Phi] {
						notCur[cp.Phi] = true
						changed = true
					}
				}
				continue
			}
			kind, delta := Inv, Lin{}
			for j, b := range r.Backs {
				nx := normVal(b.S.F, b.Next[i])
				cur := normVal(b.S.F, cp.Val)
				var k CompKind
				var d Lin
				if nx.Key() == cur.Key() {
					k = Inv
				} else if ln, ok := nx.(Lin); ok {
					if lc, ok := cur.(Lin); ok {
						d = ln.Add(lc, -1)
						k = Gen
						if d.IsC() {
							k = Ind
						}
					} else {
						k = Gen
					}
				} else {
					k = Gen
				}
				if j == 0 {
					kind, delta = k, d
				} else if k != kind || !d.Eq(delta) {
					kind = Gen
				}
			}
			if cp.Kind == Ind {
				// next = value + delta is what was assumed.
				if kind != Ind || !delta.Eq(cp.Delta) {
					kind = Gen
				}
			}
			if cp.Kind == Inv && kind != Inv {
				kind = Gen
			}
			if kind != cp.Kind {
				if old, ok := kinds[cp.Name]; ok && old == Gen {
					continue // found not to be regular before
				}
				changed = true
				kinds[cp.Name], deltas[cp.Name] = kind, delta
			}
			if _, ok := kinds[cp.Name]; !ok {
				kinds[cp.Name] = kind
			}
		}
		for i, cp := range r.Comps {
			if !e.Monotone || kinds[cp.Name] != Gen || !isInt(cp.Typ) && cp.Typ != tyLen {
				continue
			}
			m := len(r.Backs) > 0
			for _, b := range r.Backs {
				x, ok := normVal(b.S.F, b.Next[i]).(Lin)
				y, ok2 := normVal(b.S.F, cp.Val).(Lin)
				m = m && ok && ok2 && b.S.F.nonneg(x.Add(y, -1))
			}
			if old, ok := mono[cp.Name]; !ok || old && !m {
				mono[cp.Name] = m
				changed = true
			}
		}
		// New cells.
		for _, b := range r.Backs {
			for _, en := range b.Entries {
				if en.Kind != EStore {
					continue
				}
				a := b.S.F.norm(en.Addr)
				if bs := base(a); bs != nil && bs.ID >= r.firstID && bs.Op == "alloc" {
					continue
				}
				if r.varies(a) {
					continue
				}
				k := a.Key() + fmt.Sprint("/", en.Size)
				if _, ok := cells[k]; !ok {
					cells[k] = cellDef{a, en.Size, en.Typ}
					cellOrder = append(cellOrder, k)
					changed = true
				}
			}
		}
		// Bounds that hold in every iteration but the last one.
		var ni []Lin
		if !changed && len(r.Backs) > 0 {
			n := e.Sym("n", tyLen)
			for _, h := range r.Backs[0].Hist {
				if h.Op != GE {
					continue
				}
				l := r.Backs[0].S.F.norm(h.L)
				if l.Coef(r.N) == 0 || r.variesExceptN(l) {
					continue
				}
				all := true
				for _, b := range r.Backs[1:] {
					if !b.S.F.nonneg(l) {
						all = false
					}
				}
				if !all {
					continue
				}
				l = l.Subst(r.N, A(n))
				if s.F.nonneg(l.Subst(n, C(-1))) {
					ni = append(ni, l.Subst(n, A(n).AddC(-1)))
				}
			}
			if len(ni) > len(invs) {
				invs = ni
				changed = true
			}
		}
		if round == 0 {
			changed = changed || len(r.Backs) > 0
		}
		prev = r.Backs
		if !changed {
			break
		}
	}
	rec.final = true
	if e.OnLoop != nil && !s.Trial() {
		e.OnLoop(rec)
	}
	setup(s, rec, false)
	// jump assigns the values of the phis again.
	for _, p := range phis {
		vals[p] = s.top().Env[p]
	}
	return nil
}

// cursor returns how much is cut off of a slice after an iteration. It's known to
// not be negative.
func (r *LoopRec) cursor(b *Back, i int) (Lin, bool) {
	var d Lin
	for k := 0; k < 3; k++ {
		c := r.Comps[i+k]
		n, ok := normVal(b.S.F, b.Next[i+k]).(Lin)
		if !ok {
			return d, false
		}
		x := b.S.F.norm(n.Add(c.Init.(Lin), -1))
		if k == 0 {
			es := c.Delta.C
			if es <= 0 || x.C%es != 0 {
				return d, false
			}
			d.C = x.C / es
			for _, t := range x.T {
				if t.K%es != 0 {
					return d, false
				}
				d.T = append(d.T, LT{A: t.A, K: t.K / es})
			}
			if !b.S.F.nonneg(d) {
				return d, false
			}
		} else if z := b.S.F.norm(x.Add(d, 1)); !z.IsC() || z.C != 0 {
			return d, false
		}
	}
	return d, true
}

// Cursor returns how much is cut off of a slice before the iteration, and after
// one that ends in a way.
func (r *LoopRec) Cursor(i int, b *Back) (cur, next Lin, ok bool) {
	next, ok = r.cursor(b, i)
	return A(r.Comps[i].Sym), next, ok
}

// varies returns true if v depends on the iteration.
func (r *LoopRec) varies(v Val) bool {
	return mentions(v, func(t *Term) bool {
		if t == r.N || t.Op == "load" && t.Ver == r.Ver {
			return true
		}
		if t.Op == "alloc" && t.ID >= r.firstID {
			return true
		}
		for _, c := range r.Comps {
			if c.Sym == t {
				return true
			}
		}
		return false
	})
}

func (r *LoopRec) variesExceptN(l Lin) bool {
	for _, t := range l.T {
		if t.A != r.N && r.varies(A(t.A)) {
			return true
		}
	}
	return false
}

// mayWrite tells whether earlier iterations may have written to an address
// that's not one of the cells.
func (r *LoopRec) mayWrite(e *Eng, s *State, addr Lin, size int64) bool {
	bs := r.Backs
	if !r.final {
		bs = r.prev
	}
	m := e.Sym(fmt.Sprintf("m%d", r.ID), tyLen)
	m.NonNeg = true
	for _, b := range bs {
		for _, en := range b.Entries {
			switch en.Kind {
			case EStore:
				a := en.Addr
				if bb := base(a); bb != nil && bb.Op == "alloc" && bb.ID >= r.firstID {
					continue
				}
				isCell := false
				for _, c := range r.Comps {
					if c.Cell != nil && c.Cell.Eq(a) {
						isCell = true
					}
				}
				if isCell {
					continue
				}
				for _, t := range a.T {
					if t.A.Name != "" && t.A.Op == "sym" && t.A != m && len(t.A.Name) > 1 && t.A.Name[0] == 'n' {
						a = a.Subst(t.A, A(m))
					}
				}
				if e.alias(s, addr, size, a, en.Size) != 0 {
					return true
				}
			case EHavoc:
				if en.Match(addr, size) {
					return true
				}
			case ELoop:
				if en.Loop.mayWrite(e, s, addr, size) {
					return true
				}
			}
		}
	}
	return false
}

// Trial tells whether the path is one of a loop that isn't summarized yet.
func (s *State) Trial() bool {
	for _, l := range s.Loops {
		if l.Trial {
			return true
		}
	}
	return false
}
