package text

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Mode selects how bytes are combined to integers.
type Mode int

const (
	ModeDecimal Mode = iota
	ModeHex
	ModeLex
)

// Finding is a violation with the construct it was found at.
type Finding struct {
	Rule, Pos, Fn, Msg string
}

// Result is what an analysis covered and found.
type Result struct {
	Findings []Finding
	States   int
	Splits   int
	Returns  int
	Instrs   int
	Loops    int
	Bounds   int // proven index and slice bounds
}

// Analysis analyses one function for one abstract input.
type Analysis struct {
	Mode     Mode
	Fn       *ssa.Function
	Inline   func(*ssa.Function) bool
	PosOf    func(token.Pos) string
	OnReturn func(st *State, ret []Val) error // may panic with splits
	Globals  map[*ssa.Global]*Table
	Canon    bool // rebase states at loop heads
	MaxSteps int
	Res      *Result

	live  map[*ssa.Function]*liveness
	seen  map[string]bool
	heads map[*ssa.BasicBlock]int
}

// Table is the constant contents of a global array of integers.
type Table struct{ V []int64 }

// State is an abstract state.
type State struct {
	W      *Word
	Frames []*frame
	Cells  map[int][]Val
	// Plain[m] is the number of bytes before marker m from which on all bytes up
	// to the anchor are plain, or -1.
	Plain map[int]int
	Start Lin // the beginning of the word
	nextM int
}

type frame struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	pc    int
	env   map[ssa.Value]Val
	call  ssa.Value
	key   string
}

func (s *State) clone() *State {
	c := &State{W: s.W.clone(), Cells: make(map[int][]Val, len(s.Cells)), Plain: s.Plain, Start: s.Start, nextM: s.nextM}
	for k, v := range s.Cells {
		c.Cells[k] = append([]Val(nil), v...)
	}
	for _, f := range s.Frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		c.Frames = append(c.Frames, &g)
	}
	return c
}

// splits are thrown if the abstract state must be partitioned.
type (
	splitChar struct {
		Pos int
		Set ByteSet
	}
	splitLen  struct{ K int } // remaining <= K, remaining > K
	splitFork struct{ Alts []func(*State) }
	failure   struct{ Rule, Msg string }
)

func fail(rule, f string, a ...any) { panic(failure{rule, fmt.Sprintf(f, a...)}) }

// Deadline is when analyses are given up.
var Deadline time.Time

// maxKnown is the number of bytes that may be known individually.
const maxKnown = 100

// Run analyses the function.
func (an *Analysis) Run(w *Word, args []Val) {
	an.live = map[*ssa.Function]*liveness{}
	an.seen = map[string]bool{}
	an.heads = map[*ssa.BasicBlock]int{}
	if an.MaxSteps == 0 {
		an.MaxSteps = 3_000_000
	}
	f := &frame{fn: an.Fn, block: an.Fn.Blocks[0], env: map[ssa.Value]Val{}}
	for i, p := range an.Fn.Params {
		f.env[p] = args[i]
	}
	st := &State{W: w, Frames: []*frame{f}, Cells: map[int][]Val{}, Plain: map[int]int{}, Start: linAtom(atomA)}
	work := []*State{st}
	start := an.Res.Instrs
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		an.Res.States++
		for {
			if an.Res.Instrs-start > an.MaxSteps || an.Res.Instrs&1023 == 0 && !Deadline.IsZero() && time.Now().After(Deadline) {
				an.report(s, failure{"undecided", "the analysis does not converge"})
				return
			}
			if an.Res.tooMany() {
				return
			}
			more, done := an.stepSafe(s)
			if more != nil {
				an.Res.Splits += len(more) - 1
				work = append(work, more...)
				break
			}
			if done {
				break
			}
		}
	}
}

// tooMany tells whether there are enough findings.
func (r *Result) tooMany() bool {
	n := 0
	for _, f := range r.Findings {
		if f.Rule != "undecided" {
			n++
		}
	}
	return n > 8 || len(r.Findings) > 60
}

func (an *Analysis) report(s *State, f failure) {
	pos, fn := "-", an.Fn.Name()
	if len(s.Frames) > 0 {
		fr := s.Frames[len(s.Frames)-1]
		fn = fr.fn.Name()
		if fr.pc < len(fr.block.Instrs) {
			// Report the closest position known.
			for pc := fr.pc; pc >= 0; pc-- {
				if p := fr.block.Instrs[pc].Pos(); p.IsValid() {
					pos = an.PosOf(p)
					break
				}
			}
			if pos == "-" {
				for b := fr.block.Idom(); b != nil && pos == "-"; b = b.Idom() {
					for i := len(b.Instrs) - 1; i >= 0; i-- {
						if p := b.Instrs[i].Pos(); p.IsValid() {
							pos = an.PosOf(p)
							break
						}
					}
				}
			}
		}
	}
	nf := Finding{f.Rule, pos, fn, f.Msg + "; input " + s.W.describe()}
	for _, o := range an.Res.Findings {
		if o.Rule == nf.Rule && o.Pos == nf.Pos && o.Fn == nf.Fn {
			return
		}
	}
	an.Res.Findings = append(an.Res.Findings, nf)
}

func (w *Word) describe() string {
	var b strings.Builder
	for i := 0; i < len(w.Sets) && i < 24; i++ {
		s := w.at(i)
		switch {
		case s.Len() == 1:
			fmt.Fprintf(&b, "%q ", s.First())
		case s == digitSet:
			b.WriteString("[0-9] ")
		case s.Len() > 128:
			b.WriteString(". ")
		default:
			b.WriteString("[")
			s.Each(func(c byte) bool {
				if c >= 0x20 && c < 0x7f {
					b.WriteByte(c)
				} else {
					fmt.Fprintf(&b, "\\x%02x", c)
				}
				return true
			})
			b.WriteString("] ")
		}
	}
	if w.Hi == w.Lo {
		fmt.Fprintf(&b, "(%d bytes)", w.Lo)
	} else {
		fmt.Fprintf(&b, "(at least %d bytes)", w.Lo)
	}
	return b.String()
}

func (an *Analysis) stepSafe(s *State) (more []*State, done bool) {
	orig := s
	f := s.top()
	switch f.block.Instrs[f.pc].(type) {
	case *ssa.Jump, *ssa.If, *ssa.Call, *ssa.Return:
		// These change the state before it might have to be partitioned.
		orig = s.clone()
	}
	defer func() {
		s := orig
		r := recover()
		switch r := r.(type) {
		case nil:
		case splitChar:
			more = []*State{}
			for _, set := range []ByteSet{r.Set, allBytes.Minus(r.Set)} {
				c := s.clone()
				c.W.refine(r.Pos, set)
				if c.W.normalize() {
					more = append(more, c)
				}
			}
		case splitLen:
			more = []*State{}
			c := s.clone()
			if c.W.Hi < 0 || c.W.Hi > r.K {
				c.W.Hi = r.K
			}
			if c.W.normalize() {
				more = append(more, c)
			}
			c = s.clone()
			if c.W.Lo < r.K+1 {
				c.W.Lo = r.K + 1
			}
			if c.W.normalize() {
				more = append(more, c)
			}
		case splitFork:
			more = []*State{}
			for _, a := range r.Alts {
				c := s.clone()
				a(c)
				if c.W.normalize() {
					more = append(more, c)
				}
			}
		case failure:
			an.report(s, r)
			done = true
		default:
			panic(r)
		}
	}()
	an.Res.Instrs++
	return nil, an.step(s)
}

func (s *State) top() *frame { return s.Frames[len(s.Frames)-1] }

// step executes one instruction and returns true if the path ended.
func (an *Analysis) step(s *State) bool {
	f := s.top()
	in := f.block.Instrs[f.pc]
	switch in := in.(type) {
	case *ssa.Phi:
		// Phis are evaluated on block entry.
		f.pc++
	case *ssa.Jump:
		return an.enter(s, f, f.block.Succs[0])
	case *ssa.If:
		c, ok := an.val(f, in.Cond).(Bool)
		if !ok {
			// Undecided: both branches are possible.
			an.forkIf(s, f)
		}
		if c {
			return an.enter(s, f, f.block.Succs[0])
		}
		return an.enter(s, f, f.block.Succs[1])
	case *ssa.Return:
		var ret []Val
		for _, r := range in.Results {
			ret = append(ret, an.val(f, r))
		}
		if len(s.Frames) == 1 {
			if err := an.OnReturn(s, ret); err != nil {
				fail("result", "%v", err)
			}
			an.Res.Returns++
			return true
		}
		s.Frames = s.Frames[:len(s.Frames)-1]
		c := s.top()
		switch len(ret) {
		case 0:
		case 1:
			c.env[f.call] = ret[0]
		default:
			c.env[f.call] = Tuple{ret}
		}
		c.pc++
	case *ssa.Panic:
		fail("panic", "reachable panic")
	case *ssa.Store:
		addr, ok := an.val(f, in.Addr).(Cell)
		if !ok {
			fail("undecided", "store to an unresolved address")
		}
		if addr.All {
			fail("undecided", "store of a whole array")
		}
		s.Cells[addr.ID][addr.Idx] = an.val(f, in.Val)
		f.pc++
	case *ssa.DebugRef, *ssa.RunDefers:
		f.pc++
	case ssa.Value:
		if call, ok := in.(*ssa.Call); ok {
			if an.call(s, f, call) {
				return false // frame pushed
			}
			f.pc++
			return false
		}
		v := an.eval(s, f, in)
		f.env[in] = v
		f.pc++
	default:
		fail("undecided", "unsupported construct %T", in)
	}
	return false
}

func (an *Analysis) forkIf(s *State, f *frame) {
	blk := f.block
	panic(splitFork{[]func(*State){
		func(c *State) { c.top().env[blk.Instrs[len(blk.Instrs)-1].(*ssa.If).Cond] = Bool(true) },
		func(c *State) { c.top().env[blk.Instrs[len(blk.Instrs)-1].(*ssa.If).Cond] = Bool(false) },
	}})
}

func (an *Analysis) enter(s *State, f *frame, to *ssa.BasicBlock) bool {
	idx := -1
	for i, p := range to.Preds {
		if p == f.block {
			idx = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, an.val(f, phi.Edges[idx]))
	}
	f.prev, f.block, f.pc = f.block, to, 0
	for i, phi := range phis {
		f.env[phi] = vals[i]
	}
	if isLoopHead(to) {
		an.Res.Loops++
		lv := an.liveness(f.fn)
		for v := range f.env {
			if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == to {
				continue
			}
			if !lv.in[to][v] {
				delete(f.env, v)
			}
		}
		if an.Canon {
			an.heads[to]++
			if len(s.W.Sets) > maxKnown {
				fail("undecided", "how far the loop gets isn't known")
			}
			an.canon(s, f, to, phis)
			s.collect()
			key := s.key()
			if an.seen[key] {
				return true // covered
			}
			an.seen[key] = true
		}
	}
	return false
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// canon rebases the state to the current position.
func (an *Analysis) canon(s *State, f *frame, head *ssa.BasicBlock, phis []*ssa.Phi) {
	isPhi := map[ssa.Value]bool{}
	min, has := 0, false
	for _, p := range phis {
		isPhi[p] = true
		switch v := f.env[p].(type) {
		case Str:
			if c, ok := v.Start.atConst(); ok && (!has || c < min) {
				min, has = c, true
			}
		case Buf:
			an.flush(s, &v)
			f.env[p] = v
			if c, ok := v.Upto.atConst(); ok && (!has || c < min) {
				min, has = c, true
			}
		}
	}
	widen := an.heads[head] > 64
	// Index-driven loops: the cursor is a string start plus an index.
	var base *Lin
	if !has || widen {
		var names []string
		byName := map[string]Str{}
		for v, x := range f.env {
			if st, ok := x.(Str); ok && (v.Name() != "") {
				if _, ok := st.Start.atConst(); ok || len(st.Start.T) == 1 {
					names = append(names, v.Name())
					byName[v.Name()] = st
				}
			}
		}
		sort.Strings(names)
		if len(names) > 0 {
			b := byName[names[0]].Start
			for _, p := range phis {
				if !isInt(p.Type()) {
					continue
				}
				if k, ok := f.env[p].(Lin); ok {
					pos := b.add(k, 1)
					if c, ok := pos.atConst(); ok && c >= 0 && (base == nil || c > min) {
						bb := b
						base, min, has = &bb, c, true
					}
				}
			}
		}
	}
	if !has || min < 0 {
		return
	}
	marker := 0
	if base != nil {
		if c, ok := base.atConst(); ok {
			if c > 0 {
				an.advance(s, c)
				nb := linAtom(atomA)
				base, min, c = &nb, min-c, 0
			}
			// The start of the string becomes a marker behind the anchor.
			marker = atomMarker - s.nextM
			s.nextM++
			plain := true
			for i := c; i < min; i++ {
				if !s.W.at(i).Minus(plainSet).Empty() {
					plain = false
				}
			}
			np := map[int]int{}
			for k, v := range s.Plain {
				np[k] = v
			}
			np[marker] = -1
			if plain {
				np[marker] = 0
			}
			s.Plain = np
			old := *base
			for v, x := range f.env {
				switch x := x.(type) {
				case Lin:
					if isPhi[v] && isInt(v.Type()) {
						if p := old.add(x, 1); true {
							if _, ok := p.atConst(); ok {
								f.env[v] = p.add(linAtom(marker), -1)
							}
						}
					}
				case Str:
					if x.Start.eq(old) {
						f.env[v] = Str{linAtom(marker), x.End, x.Fresh}
					}
				case Buf:
					if x.Upto.eq(old) {
						f.env[v] = Buf{linAtom(marker), x.Extra, x.View}
					}
				}
			}
		}
	}
	if min > 0 {
		an.advance(s, min)
	}
	s.renameMarkers()
}

// collect drops unreachable locals and numbers the others canonically.
func (s *State) collect() {
	ids := map[int]int{}
	cells := map[int][]Val{}
	var mark func(v Val) Val
	id := func(i int) int {
		n, ok := ids[i]
		if !ok {
			n = len(ids) + 1
			ids[i] = n
			c := make([]Val, len(s.Cells[i]))
			cells[n] = c
			for k, v := range s.Cells[i] {
				c[k] = mark(v)
			}
		}
		return n
	}
	mark = func(v Val) Val {
		switch v := v.(type) {
		case Cell:
			v.ID = id(v.ID)
			return v
		case LocalSlice:
			v.ID = id(v.ID)
			return v
		case Iface:
			return Iface{v.T, mark(v.V)}
		case Elem:
			return Elem{mark(v.V)}
		case Data:
			return Data{mark(v.V)}
		case Tuple:
			o := Tuple{}
			for _, e := range v.V {
				o.V = append(o.V, mark(e))
			}
			return o
		case Func:
			o := Func{Fn: v.Fn}
			for _, e := range v.Free {
				o.Free = append(o.Free, mark(e))
			}
			return o
		case Buf:
			o := Buf{Upto: v.Upto, View: v.View}
			for _, e := range v.Extra {
				o.Extra = append(o.Extra, mark(e))
			}
			return o
		}
		return v
	}
	for _, f := range s.Frames {
		for _, v := range sortedVals(f.env) {
			f.env[v] = mark(f.env[v])
		}
	}
	s.Cells = cells
}

// renameMarkers numbers markers canonically and drops unused ones.
func (s *State) renameMarkers() {
	m := map[int]int{}
	ren := func(l Lin) Lin {
		for _, t := range l.T {
			if t.A <= atomMarker {
				if _, ok := m[t.A]; !ok {
					m[t.A] = atomMarker - len(m)
				}
			}
		}
		out := Lin{C: l.C}
		for _, t := range l.T {
			a := t.A
			if a <= atomMarker {
				a = m[a]
			}
			out = out.add(linAtom(a).mul(t.K), 1)
		}
		return out
	}
	id := func(p int) (int, bool) { return p, true }
	for _, f := range s.Frames {
		for _, v := range sortedVals(f.env) {
			f.env[v] = mapPos(f.env[v], ren, id)
		}
	}
	for _, c := range sortedKeys(s.Cells) {
		for i, v := range s.Cells[c] {
			s.Cells[c][i] = mapPos(v, ren, id)
		}
	}
	np := map[int]int{}
	for o, n := range m {
		np[n] = s.Plain[o]
	}
	for _, t := range s.Start.T {
		if _, ok := m[t.A]; !ok && t.A <= atomMarker {
			m[t.A] = atomMarker - len(m)
			np[m[t.A]] = -1
		}
	}
	s.Start = ren(s.Start)
	s.Plain = np
	s.nextM = len(m)
}

func sortedVals(m map[ssa.Value]Val) []ssa.Value {
	vs := make([]ssa.Value, 0, len(m))
	for v := range m {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Name() != vs[j].Name() {
			return vs[i].Name() < vs[j].Name()
		}
		return vs[i].Pos() < vs[j].Pos()
	})
	return vs
}

// advance moves the anchor by c bytes.
func (an *Analysis) advance(s *State, c int) {
	w := s.W
	for i := 0; i < c; i++ {
		set := w.at(0)
		if w.Spec != nil && w.SQ >= 0 {
			to := int8(-2)
			set.Each(func(b byte) bool {
				t := w.Spec.Next[w.SQ][b]
				if to == -2 {
					to = t
				} else if to != t {
					// Partition by the successor.
					var p ByteSet
					set.Each(func(b2 byte) bool {
						if w.Spec.Next[w.SQ][b2] == to {
							p.Add(b2)
						}
						return true
					})
					panic(splitChar{i, p})
				}
				return true
			})
			w.SQ = int(to)
		}
		if !set.Minus(plainSet).Empty() {
			np := map[int]int{}
			for k := range s.Plain {
				np[k] = -1
			}
			s.Plain = np
		}
		rlo, rhi := w.after(0)
		w.VQ = w.V.post(w.VQ, w.raw(0), rlo, rhi)
		if len(w.Sets) > 0 {
			w.Sets = w.Sets[1:]
		}
		w.Lo--
		if w.Lo < 0 {
			w.Lo = 0
		}
		if w.Hi > 0 {
			w.Hi--
		}
		if w.TailAt > 0 {
			w.TailAt--
		}
	}
	newA := linAtom(atomA).add(lin(int64(c)), -1)
	s.mapAll(func(l Lin) Lin { return l.subst(atomA, newA) },
		func(p int) (int, bool) { return p - c, p >= c })
}

func (s *State) mapAll(f func(Lin) Lin, sh func(int) (int, bool)) {
	for _, fr := range s.Frames {
		for v, x := range fr.env {
			fr.env[v] = mapPos(x, f, sh)
		}
	}
	for _, c := range s.Cells {
		for i, x := range c {
			c[i] = mapPos(x, f, sh)
		}
	}
	s.Start = f(s.Start)
}

func (s *State) key() string {
	var b strings.Builder
	w := s.W
	fmt.Fprintf(&b, "w%d,%d,%d,%d,%d,%v|", w.VQ, w.Lo, w.Hi, w.SQ, w.TailAt, w.Sets)
	for _, f := range s.Frames {
		fmt.Fprintf(&b, "%s#%d:", f.fn.Name(), f.block.Index)
		for _, v := range sortedVals(f.env) {
			fmt.Fprintf(&b, "%s=%s;", v.Name(), show(f.env[v]))
		}
	}
	for _, c := range sortedKeys(s.Cells) {
		fmt.Fprintf(&b, "c%d=", c)
		for _, v := range s.Cells[c] {
			b.WriteString(show(v) + ",")
		}
	}
	fmt.Fprint(&b, s.Plain)
	return b.String()
}

// val returns the abstract value of an operand.
func (an *Analysis) val(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch t := v.Type().Underlying().(type) {
			case *types.Basic:
				switch {
				case t.Info()&types.IsInteger != 0:
					return lin(0)
				case t.Info()&types.IsString != 0:
					return Lit{""}
				case t.Info()&types.IsBoolean != 0:
					return Bool(false)
				}
			}
			return Nil{}
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return Bool(constant.BoolVal(v.Value))
		case constant.String:
			return Lit{constant.StringVal(v.Value)}
		case constant.Int:
			i, ok := new(big.Int).SetString(v.Value.ExactString(), 10)
			if !ok {
				return Top{}
			}
			return Lin{C: i}
		}
		return Top{}
	case *ssa.Function:
		return Func{Fn: v}
	case *ssa.Builtin:
		return v
	case *ssa.Global:
		return v
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	if _, ok := v.(*ssa.FreeVar); ok {
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.env[f.fn.FreeVars[i]]
			}
		}
	}
	return Top{}
}

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (an *Analysis) liveness(fn *ssa.Function) *liveness {
	if l := an.live[fn]; l != nil {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, succ := range b.Succs {
				for v := range l.in[succ] {
					live[v] = true
				}
				idx := -1
				for k, p := range succ.Preds {
					if p == b {
						idx = k
					}
				}
				for _, in := range succ.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
				}
				for _, in := range succ.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					live[phi.Edges[idx]] = true
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	an.live[fn] = l
	return l
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// intType returns the width and signedness of an integer type.
func intType(t types.Type) (w int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.UntypedInt, types.UntypedRune:
		return 64, true, true
	}
	return
}
