package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Eng interprets functions abstractly.
type Eng struct {
	Ts     Terms
	Sizes  types.Sizes
	PosOf  func(token.Pos) string
	Inline func(*ssa.Function) bool
	// Call overrides calls; ok is false if the default applies.
	Call func(e *Eng, s *State, name string, fn *ssa.Function, args []Val, res types.Type, pos token.Pos) (v Val, ok bool)
	// Dynamic resolves the function stored in a term.
	Dynamic      func(t *Term) *Fn
	NameLoad     func(addr Lin, t types.Type) string
	Axioms       func(t *Term)
	ZeroedResult func(t *Term) bool
	// GlobalVal knows the values of global variables.
	GlobalVal func(g *ssa.Global, off Lin, t types.Type) (Val, bool)
	// Tables are the arrays of constants, by offset. The rest of them is zero.
	Tables map[*ssa.Global]map[int64]constant.Value
	// Maps are the entries of the maps of constants.
	Maps map[*ssa.Global][][2]constant.Value
	// Append overrides append.
	Append func(e *Eng, s *State, t types.Type, args []Val, pos token.Pos) (Val, bool)
	// Monotone makes use of variables that never decrease in a loop.
	Monotone bool
	// AtHead tells whether to stop at the head of a loop.
	AtHead func(s *State, head *ssa.BasicBlock) bool
	// OnIndex is told about all indexes: the elements from lo to hi of the n at ptr are used.
	OnIndex func(s *State, ptr, lo, hi, n Lin, pos token.Pos)
	// OnAlloc is told about the sizes of memory that's allocated, in elements or bytes.
	OnAlloc func(s *State, n Lin, pos token.Pos)
	// OnLoop is told about the summaries of loops.
	OnLoop func(r *LoopRec)
	// OnLoad is told about all initial loads.
	OnLoad      func(t *Term)
	ZeroGlobals map[*ssa.Global]bool
	NilSafe     map[*ssa.Global]bool // never nil

	Steps, Paths, Forks, LoopSums int
	MaxSteps                      int
	Cursors                       bool // slices in loops may be cut off at the front
	nver                          int
	nalloc                        int
	loopBlocks                    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	heads                         map[*ssa.Function]map[*ssa.BasicBlock]bool
	depth                         int
	curPos                        token.Pos
	curFn                         *ssa.Function
}

// OutKind is how a path ended.
type OutKind int

const (
	OReturn OutKind = iota
	OPanic
	OCut // reached the head of the outermost loop of a step
	OStop
)

// Outcome is the end of a path.
type Outcome struct {
	Kind       OutKind
	S          *State
	Ret        []Val
	Next       map[*ssa.Phi]Val // on OCut
	Head, From *ssa.BasicBlock
	Rule       string
	Msg        string
	Pos        string
	Fn         string
}

// Version returns a new memory version.
func (e *Eng) Version() int { e.nver++; return e.nver }

// Start returns a state at the begin of fn.
func (e *Eng) Start(fn *ssa.Function, args []Val) *State {
	s := &State{F: &Facts{eq: map[*Term]Lin{}, bl: map[*Term]bool{}}}
	e.enter(s, Fn{Fn: fn}, args, nil, nil)
	return s
}

// StartClosure returns a state at the begin of a closure with the facts and
// the memory of s.
func (e *Eng) StartClosure(s *State, f Fn, args []Val) *State {
	n := &State{F: s.F.clone(), Log: s.Log}
	e.enter(n, f, args, nil, nil)
	return n
}

// ResumeAt puts s at a loop head with the given values and makes the head a cut.
func (e *Eng) ResumeAt(s *State, head, from *ssa.BasicBlock, vals map[*ssa.Phi]Val) {
	c := s.top()
	n := 0
	for p, v := range vals {
		c.Env[p] = v
		n++
	}
	c.Prev, c.Block, c.PC = from, head, n
	s.Loops = append(s.Loops, &LoopCtx{Head: head, Depth: len(s.Calls), Cut: true, Rec: &LoopRec{}})
}

// Explore runs all paths from s.
func (e *Eng) Explore(s *State) []*Outcome {
	var outs []*Outcome
	work := []*State{s}
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 12 {
		e.fail("undecided", "loops are nested too deeply")
	}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			o, forked := e.step(st)
			if forked != nil {
				work = append(work, forked...)
				break
			}
			if o != nil {
				if o.S != nil {
					outs = append(outs, o)
					e.Paths++
				}
				break
			}
		}
	}
	return outs
}

// Deadline is when analyses are given up.
var Deadline time.Time

// TimedOut tells whether it's over.
func TimedOut() bool { return !Deadline.IsZero() && time.Now().After(Deadline) }

var ended = &Outcome{} // a path that's dropped

func (e *Eng) step(s *State) (out *Outcome, forked []*State) {
	e.Steps++
	if e.MaxSteps > 0 && e.Steps > e.MaxSteps || e.Steps&255 == 0 && TimedOut() {
		return &Outcome{Kind: OStop, S: s, Rule: "undecided", Msg: "the analysis exceeds its budget"}, nil
	}
	c := s.top()
	in := c.Block.Instrs[c.PC]
	if p := in.Pos(); p.IsValid() {
		e.curPos = p
	}
	e.curFn = c.Fn
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case fork:
				e.Forks++
				if DebugForks {
					println(e.depth, e.PosOf(e.curPos), Show(r.c))
				}
				a, b := s.clone(), s
				if a.F.Assume(r.c) {
					forked = append(forked, a)
				}
				if b.F.Assume(r.c.Negate()) {
					forked = append(forked, b)
				}
				for _, f := range forked {
					if f.F.Decide(r.c) == 0 {
						out = &Outcome{Kind: OStop, S: f, Rule: "undecided", Msg: "the condition " + Show(r.c) + " can't be assumed", Pos: e.PosOf(e.curPos), Fn: e.curFn.String()}
						forked = nil
						return
					}
				}
				if forked == nil {
					forked = []*State{}
				}
				out = nil
			case stop:
				k := OStop
				if r.rule == "panic" {
					k = OPanic
				}
				out = &Outcome{Kind: k, S: s, Rule: r.rule, Msg: r.msg, Pos: e.PosOf(e.curPos), Fn: e.curFn.String()}
				forked = nil
			default:
				panic(fmt.Sprintf("%v at %s in %s: %s", r, e.PosOf(e.curPos), e.curFn, in))
			}
		}
	}()
	return e.exec(s, c, in)
}

func (e *Eng) exec(s *State, c *Call, in ssa.Instruction) (*Outcome, []*State) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.If:
		v, ok := e.val(c, in.Cond).(Cond)
		if !ok {
			e.fail("undecided", "branch on %s", Show(e.val(c, in.Cond)))
		}
		if s.require(v) {
			return e.jump(s, c, c.Block.Succs[0])
		}
		return e.jump(s, c, c.Block.Succs[1])
	case *ssa.Jump:
		return e.jump(s, c, c.Block.Succs[0])
	case *ssa.Return:
		var res []Val
		for _, r := range in.Results {
			res = append(res, e.val(c, r))
		}
		return e.ret(s, c, res)
	case *ssa.RunDefers:
		for i := len(s.Defers) - 1; i >= 0; i-- {
			d := s.Defers[i]
			if d.depth != len(s.Calls) {
				break
			}
			s.Defers = s.Defers[:i]
			e.enter(s, d.fn, d.args, nil, func(*State, []Val) {})
			return nil, nil // run again afterwards
		}
	case *ssa.Defer:
		args := e.args(c, in.Call.Args)
		s.Defers = append(s.Defers, &deferred{len(s.Calls), e.val(c, in.Call.Value), args})
	case *ssa.Panic:
		panic(stop{rule: "panic", msg: "a panic is reachable"})
	case *ssa.Store:
		e.Store(s, e.lin(e.val(c, in.Addr)), in.Val.Type(), e.val(c, in.Val), in.Pos())
	case *ssa.MapUpdate:
		s.push(&Entry{Kind: EEvent, Ev: &Event{Name: "mapupdate", Args: []Val{e.val(c, in.Map), e.val(c, in.Key), e.val(c, in.Value)}, Pos: in.Pos()}})
	case *ssa.Go, *ssa.Send, *ssa.Select:
		e.fail("undecided", "unsupported construct %T", in)
	case *ssa.Phi:
		panic("phi")
	case *ssa.Call:
		v, done := e.call(s, c, in)
		if !done {
			return nil, nil // a body is entered
		}
		c.Env[in] = v
	case ssa.Value:
		c.Env[in] = e.eval(s, c, in)
	default:
		e.fail("undecided", "unsupported construct %T", in)
	}
	c.PC++
	return nil, nil
}

func (e *Eng) ret(s *State, c *Call, res []Val) (*Outcome, []*State) {
	// Leave the loops of the activation.
	for len(s.Loops) > 0 && s.Loops[len(s.Loops)-1].Depth >= len(s.Calls) {
		if s.Loops[len(s.Loops)-1].Trial {
			return ended, nil
		}
		s.Loops = s.Loops[:len(s.Loops)-1]
	}
	if len(s.Calls) == 1 {
		return &Outcome{Kind: OReturn, S: s, Ret: res, Pos: e.PosOf(e.curPos), Fn: c.Fn.String()}, nil
	}
	s.Calls = s.Calls[:len(s.Calls)-1]
	if c.Ret != nil {
		c.Ret(s, res)
		return nil, nil
	}
	caller := s.top()
	if v, ok := c.Site.(ssa.Value); ok {
		switch len(res) {
		case 0:
			caller.Env[v] = Tuple{}
		case 1:
			caller.Env[v] = res[0]
		default:
			caller.Env[v] = Tuple{res}
		}
	}
	caller.PC++
	return nil, nil
}

// enter begins the execution of a body.
func (e *Eng) enter(s *State, fv Val, args []Val, site ssa.Instruction, ret func(*State, []Val)) {
	var fn *ssa.Function
	var free []Val
	switch f := fv.(type) {
	case Fn:
		fn, free = f.Fn, f.Free
	default:
		e.fail("undecided", "call of an unresolved function %s", Show(fv))
	}
	if len(fn.Blocks) == 0 {
		e.fail("undecided", "call of %s, which has no body", fn)
	}
	if len(s.Calls) > 24 {
		e.fail("undecided", "calls are nested too deeply")
	}
	for _, k := range s.Calls {
		if k.Fn == fn {
			e.fail("undecided", "recursion of %s", fn)
		}
	}
	n := &Call{Fn: fn, Block: fn.Blocks[0], Env: map[ssa.Value]Val{}, Site: site, Ret: ret}
	for i, p := range fn.Params {
		n.Env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		n.Env[p] = free[i]
	}
	s.Calls = append(s.Calls, n)
}

func (e *Eng) jump(s *State, c *Call, to *ssa.BasicBlock) (*Outcome, []*State) {
	from := c.Block
	// Leaving loops?
	for len(s.Loops) > 0 {
		l := s.Loops[len(s.Loops)-1]
		if l.Depth != len(s.Calls) || e.loopOf(l.Head)[to] {
			break
		}
		if l.Trial {
			return ended, nil
		}
		s.Loops = s.Loops[:len(s.Loops)-1]
	}
	vals := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals[p] = e.val(c, p.Edges[pi])
	}
	if e.isHead(to) {
		if e.AtHead != nil && len(s.Loops) == 0 && e.AtHead(s, to) {
			return &Outcome{Kind: OCut, S: s, Next: vals, Head: to, From: from, Pos: e.PosOf(e.curPos), Fn: c.Fn.String()}, nil
		}
		// A back edge of an active loop?
		if n := len(s.Loops); n > 0 && s.Loops[n-1].Head == to && s.Loops[n-1].Depth == len(s.Calls) {
			l := s.Loops[n-1]
			if l.Cut {
				return &Outcome{Kind: OCut, S: s, Next: vals, Pos: e.PosOf(e.curPos), Fn: c.Fn.String()}, nil
			}
			l.Rec.addBack(e, s, vals)
			return ended, nil
		}
		if err := e.enterLoop(s, c, to, phis, vals); err != nil {
			return err, nil
		}
	}
	for _, p := range phis {
		c.Env[p] = vals[p]
	}
	c.Prev, c.Block, c.PC = from, to, len(phis)
	return nil, nil
}

func (e *Eng) args(c *Call, vs []ssa.Value) []Val {
	var out []Val
	for _, v := range vs {
		out = append(out, e.val(c, v))
	}
	return out
}

func (e *Eng) lin(v Val) Lin {
	if l, ok := v.(Lin); ok {
		return l
	}
	e.fail("undecided", "not an address or integer: %s", Show(v))
	return Lin{}
}

func (e *Eng) globTerm(g *ssa.Global) *Term {
	return e.Ts.get("glob "+g.String(), func() *Term {
		return &Term{Op: "glob", Name: g.Name(), Typ: g.Type(), NonZero: true, G: g}
	})
}

// globalValue knows the values of globals that are never written to.
func (e *Eng) globalValue(s *State, g *ssa.Global, off Lin, t types.Type) (Val, bool) {
	if e.ZeroGlobals[g] {
		return e.zero(t), true
	}
	if tab, ok := e.Tables[g]; ok {
		return e.tableValue(s, tab, off, t), true
	}
	if e.GlobalVal != nil {
		return e.GlobalVal(g, off, t)
	}
	return nil, false
}

// constLookup is an element of a map of constants.
func (e *Eng) constLookup(s *State, in *ssa.Lookup, x, key Val) (Val, bool) {
	l, ok := x.(Lin)
	if !ok || len(l.T) != 1 || l.C != 0 || l.T[0].K != 1 || l.T[0].A.Op != "load" {
		return nil, false
	}
	b := Base(l.T[0].A.Addr)
	if b == nil || b.Op != "glob" || b.G == nil {
		return nil, false
	}
	entries, ok := e.Maps[b.G]
	if !ok {
		return nil, false
	}
	mt := in.X.Type().Underlying().(*types.Map)
	result := func(v Val, found bool) (Val, bool) {
		if !in.CommaOk {
			return v, true
		}
		c := Cond{Op: False}
		if found {
			c = Cond{Op: True}
		}
		return Tuple{F: []Val{v, c}}, true
	}
	for _, en := range entries {
		k := e.constant(ssa.NewConst(en[0], mt.Key()))
		var eq Cond
		switch k := k.(type) {
		case Lin:
			eq = Cond{Op: EQ, L: e.lin(key).Add(k, -1)}
		case Str:
			eq = e.EqualStr(s, e.ToStr(key), k)
		default:
			return nil, false
		}
		if s.require(eq) {
			return result(e.constant(ssa.NewConst(en[1], mt.Elem())), true)
		}
	}
	return result(e.zero(mt.Elem()), false)
}

// tableValue is an element of a table of constants.
func (e *Eng) tableValue(s *State, tab map[int64]constant.Value, off Lin, t types.Type) Val {
	off = s.F.norm(off)
	var keys []int64
	for k := range tab {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, k := range keys {
		if s.require(Cond{Op: EQ, L: off.AddC(-k)}) {
			return e.constant(ssa.NewConst(tab[k], t))
		}
	}
	return e.zero(t)
}

func (e *Eng) val(c *Call, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constant(v)
	case *ssa.Function:
		return Fn{Fn: v}
	case *ssa.Builtin:
		return Built{v}
	case *ssa.Global:
		return A(e.globTerm(v))
	}
	x, ok := c.Env[v]
	if !ok {
		e.fail("undecided", "value %s = %s isn't known", v.Name(), v)
	}
	return x
}

func (e *Eng) constant(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolVal(constant.BoolVal(c.Value))
	case constant.String:
		s := constant.StringVal(c.Value)
		return e.strConst(s)
	}
	if b, ok := basic(c.Type()); ok && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
		if constant.Sign(c.Value) == 0 {
			return e.Sym("0.0", c.Type())
		}
		return e.Sym("const "+c.Value.ExactString(), c.Type())
	}
	if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
		return C(i)
	}
	return A(e.Sym("const "+c.Value.ExactString(), c.Type()))
}

func (e *Eng) strConst(s string) Val {
	if s == "" {
		return Str{}
	}
	t := e.Ts.get("strconst "+s, func() *Term {
		return &Term{Op: "str", Name: fmt.Sprintf("%q", s), Typ: tyBytePtr, NonZero: true}
	})
	return Str{A(t), C(int64(len(s)))}
}

// ConstStr returns the constant string v is.
func ConstStr(v Val) (string, bool) {
	s, ok := v.(Str)
	if !ok {
		return "", false
	}
	if s.Len.IsC() && s.Len.C == 0 {
		return "", true
	}
	if len(s.Ptr.T) == 1 && s.Ptr.C == 0 && s.Ptr.T[0].A.Op == "str" {
		var q string
		fmt.Sscanf(s.Ptr.T[0].A.Name, "%q", &q)
		if int64(len(q)) == s.Len.C && s.Len.IsC() {
			return q, true
		}
	}
	return "", false
}

func (e *Eng) newAlloc(s *State, t types.Type, name string) Lin {
	e.nalloc++
	id := e.nalloc
	tm := e.Ts.get(fmt.Sprintf("alloc %d", id), func() *Term {
		return &Term{Op: "alloc", Name: fmt.Sprintf("%s%d", name, id), Typ: t, NonZero: true}
	})
	return A(tm)
}

func (e *Eng) eval(s *State, c *Call, in ssa.Value) Val {
	switch in := in.(type) {
	case *ssa.Alloc:
		// The identity is that of the site in the activation path, so that
		// partitions of a path agree.
		return e.siteAlloc(s, c, in)
	case *ssa.BinOp:
		return e.binop(s, in.Op, e.val(c, in.X), e.val(c, in.Y), in.X.Type())
	case *ssa.UnOp:
		x := e.val(c, in.X)
		switch in.Op {
		case token.MUL:
			return e.Load(s, e.lin(x), in.Type())
		case token.NOT:
			return x.(Cond).Negate()
		case token.SUB:
			if l, ok := x.(Lin); ok {
				return l.Neg()
			}
			return e.App("neg", in.Type(), x)
		case token.XOR:
			return A(e.App("xor", in.Type(), x))
		}
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return e.lin(e.val(c, in.X)).AddC(e.fieldOff(st, in.Field))
	case *ssa.Field:
		if a, ok := e.val(c, in.X).(Agg); ok {
			return a.F[in.Field]
		}
	case *ssa.IndexAddr:
		i := e.lin(e.val(c, in.Index))
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			sl := e.asSlice(e.val(c, in.X))
			e.indexed(s, sl.Ptr, i, i.AddC(1), sl.Len, in.Pos())
			return sl.Ptr.Add(i, e.sizeof(u.Elem()))
		case *types.Pointer:
			return e.lin(e.val(c, in.X)).Add(i, e.sizeof(u.Elem().Underlying().(*types.Array).Elem()))
		}
	case *ssa.Index:
		x := e.val(c, in.X)
		i := e.lin(e.val(c, in.Index))
		switch x := x.(type) {
		case Str:
			e.indexed(s, x.Ptr, i, i.AddC(1), x.Len, in.Pos())
			return e.Load(s, x.Ptr.Add(i, 1), types.Typ[types.Uint8])
		case Sl:
			e.indexed(s, x.Ptr, i, i.AddC(1), x.Len, in.Pos())
			return e.Load(s, x.Ptr.Add(i, 1), types.Typ[types.Uint8])
		case Agg:
			if i.IsC() && i.C >= 0 && i.C < int64(len(x.F)) {
				return x.F[i.C]
			}
		}
	case *ssa.Lookup:
		x := e.val(c, in.X)
		i := e.val(c, in.Index)
		if st, ok := x.(Str); ok {
			e.indexed(s, st.Ptr, e.lin(i), e.lin(i).AddC(1), st.Len, in.Pos())
			return e.Load(s, st.Ptr.Add(e.lin(i), 1), types.Typ[types.Uint8])
		}
		if v, ok := e.constLookup(s, in, x, i); ok {
			return v
		}
		return e.appVal(e.App("mapget", nil, x, i), in.Type())
	case *ssa.Extract:
		return e.val(c, in.Tuple).(Tuple).F[in.Index]
	case *ssa.Convert:
		return e.convert(s, e.val(c, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return e.convert(s, e.val(c, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		return e.val(c, in.X)
	case *ssa.ChangeInterface:
		return e.val(c, in.X)
	case *ssa.MakeInterface:
		x := e.val(c, in.X)
		return Iface{TW: C(1), T: in.X.Type(), V: x}
	case *ssa.MakeClosure:
		return Fn{in.Fn.(*ssa.Function), e.args(c, in.Bindings)}
	case *ssa.MakeSlice:
		l, k := e.lin(e.val(c, in.Len)), e.lin(e.val(c, in.Cap))
		el := in.Type().Underlying().(*types.Slice).Elem()
		if e.OnAlloc != nil {
			e.OnAlloc(s, k, in.Pos())
		}
		t := e.App("makeslice", types.NewPointer(el), l, k)
		t.NonZero = true
		return Sl{A(t), l, k}
	case *ssa.MakeMap:
		var r Val = C(0)
		if in.Reserve != nil {
			r = e.val(c, in.Reserve)
		}
		if l, ok := r.(Lin); ok && e.OnAlloc != nil {
			e.OnAlloc(s, l, in.Pos())
		}
		t := e.App("makemap", in.Type(), r)
		t.NonZero = true
		s.push(&Entry{Kind: EEvent, Ev: &Event{Name: "makemap", Args: []Val{r}, Res: A(t), Pos: in.Pos()}})
		return A(t)
	case *ssa.Slice:
		return e.slice(s, c, in)
	case *ssa.TypeAssert:
		return e.typeAssert(s, c, in)
	case *ssa.SliceToArrayPointer:
		return e.asSlice(e.val(c, in.X)).Ptr
	case *ssa.Range:
		return e.App("range", nil, e.val(c, in.X))
	}
	e.fail("undecided", "unsupported construct %T %s", in, in)
	return nil
}

// siteAlloc allocates a local variable.
func (e *Eng) siteAlloc(s *State, c *Call, in *ssa.Alloc) Val {
	key := fmt.Sprintf("alloc %p", in)
	for _, k := range s.Calls[1:] {
		key += fmt.Sprintf("/%p", k.Site)
	}
	for _, l := range s.Loops {
		key += fmt.Sprintf("|%d", l.Rec.idOr0())
	}
	tm := e.Ts.get(key, func() *Term {
		e.nalloc++
		return &Term{Op: "alloc", Name: fmt.Sprintf("%s%d", in.Comment, e.nalloc), Typ: in.Type(), NonZero: true}
	})
	addr := A(tm)
	// A second execution starts from zero again.
	el := in.Type().Underlying().(*types.Pointer).Elem()
	if at, ok := el.Underlying().(*types.Array); ok && at.Len() > 32 {
		return addr
	}
	used := false
	for en := s.Log; en != nil; en = en.prev {
		if en.Kind == EStore && base(en.Addr) == tm {
			used = true
		}
	}
	if used {
		e.Store(s, addr, el, e.zero(el), in.Pos())
	}
	return addr
}

func (e *Eng) fieldOff(st *types.Struct, i int) int64 {
	var fs []*types.Var
	for k := 0; k < st.NumFields(); k++ {
		fs = append(fs, st.Field(k))
	}
	return e.Sizes.Offsetsof(fs)[i]
}

func isInt(t types.Type) bool {
	b, ok := basic(t)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := basic(t)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := basic(t)
	return ok && b.Info()&types.IsString != 0
}

func (e *Eng) binop(s *State, op token.Token, x, y Val, t types.Type) Val {
	switch op {
	case token.EQL:
		return e.equal(s, x, y)
	case token.NEQ:
		return e.equal(s, x, y).Negate()
	}
	if lx, ok := x.(Lin); ok {
		ly := e.lin(y)
		switch op {
		case token.ADD:
			return lx.Add(ly, 1)
		case token.SUB:
			// Characters are compared relative to '0'.
			return e.narrow(s, lx.Add(ly, -1), t)
		case token.MUL:
			nx, ny := s.F.norm(lx), s.F.norm(ly)
			if nx.IsC() {
				return ly.Mul(nx.C)
			}
			if ny.IsC() {
				return lx.Mul(ny.C)
			}
			if nx.Key() > ny.Key() {
				nx, ny = ny, nx
			}
			return A(e.App("mul", t, nx, ny))
		case token.SHL:
			ny := s.F.norm(ly)
			if ny.IsC() && ny.C < 62 && ny.C >= 0 {
				return lx.Mul(1 << uint(ny.C))
			}
		case token.LSS:
			return Cond{Op: GE, L: ly.Add(lx, -1).AddC(-1)}
		case token.LEQ:
			return Cond{Op: GE, L: ly.Add(lx, -1)}
		case token.GTR:
			return Cond{Op: GE, L: lx.Add(ly, -1).AddC(-1)}
		case token.GEQ:
			return Cond{Op: GE, L: lx.Add(ly, -1)}
		}
		nx, ny := s.F.norm(lx), s.F.norm(ly)
		if ny.IsC() && ny.C == 0 {
			switch op {
			case token.XOR, token.OR, token.AND_NOT, token.SHL, token.SHR:
				return nx
			}
		}
		if nx.IsC() && nx.C == 0 && (op == token.XOR || op == token.OR) {
			return ny
		}
		if nx.IsC() && ny.IsC() {
			if v, ok := constOp(op, nx.C, ny.C); ok {
				return C(v)
			}
		}
		return A(e.App(op.String(), t, nx, ny))
	}
	if cx, ok := x.(Cond); ok {
		cy := y.(Cond)
		switch op {
		case token.AND, token.OR, token.XOR, token.LAND, token.LOR:
			a, b := s.require(cx), s.require(cy)
			switch op {
			case token.AND, token.LAND:
				return boolVal(a && b)
			case token.OR, token.LOR:
				return boolVal(a || b)
			}
			return boolVal(a != b)
		}
	}
	if sx, ok := x.(Str); ok && op == token.ADD {
		return e.appVal(e.App("concat", nil, sx, y), t)
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return Cond{Op: IS, T: e.App(op.String(), types.Typ[types.Bool], x, y)}
	}
	return e.App(op.String(), t, x, y)
}

func constOp(op token.Token, x, y int64) (int64, bool) {
	switch op {
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.SHR:
		if y >= 0 && y < 63 {
			return x >> uint(y), true
		}
	case token.QUO:
		if y != 0 {
			return x / y, true
		}
	case token.REM:
		if y != 0 {
			return x % y, true
		}
	case token.AND_NOT:
		return x &^ y, true
	}
	return 0, false
}

// narrow keeps differences of bytes within their type.
func (e *Eng) narrow(s *State, l Lin, t types.Type) Val {
	b, ok := basic(t)
	if !ok || b.Kind() != types.Uint8 {
		return l
	}
	n := s.F.norm(l)
	if n.IsC() {
		return C(int64(uint8(n.C)))
	}
	if lo, ok := s.F.lower(n); ok && lo >= 0 {
		return l
	}
	return A(e.App("wrap8", t, n))
}

// unchanged compares a number with the same one in a narrower type: they're equal
// if it's in the range of the type.
func (e *Eng) unchanged(s *State, x, y Lin) (Cond, bool) {
	for _, p := range [][2]Lin{{x, y}, {y, x}} {
		l := s.F.norm(p[0])
		if l.C != 0 || len(l.T) != 1 || l.T[0].K != 1 {
			continue
		}
		t := l.T[0].A
		b, ok := basic(t.Typ)
		if t.Op != "app" || len(t.Args) != 1 || !ok || t.Name != "conv "+b.String() || b.Info()&types.IsInteger == 0 || e.sizeof(b) > 4 {
			continue
		}
		v, ok := t.Args[0].(Lin)
		if !ok || s.F.norm(v).Key() != s.F.norm(p[1]).Key() {
			continue
		}
		bits := uint(8 * e.sizeof(b))
		lo, hi := int64(0), int64(1)<<bits-1
		if b.Info()&types.IsUnsigned == 0 {
			lo, hi = -1<<(bits-1), int64(1)<<(bits-1)-1
		}
		return boolVal(s.require(Cond{Op: GE, L: v.AddC(-lo)}) && s.require(Cond{Op: GE, L: C(hi).Add(v, -1)})), true
	}
	return Cond{}, false
}

// equal compares two values.
func (e *Eng) equal(s *State, x, y Val) Cond {
	switch x := x.(type) {
	case Lin:
		if c, ok := y.(Cond); ok {
			_ = c
			e.fail("undecided", "comparison of different kinds")
		}
		if r, ok := e.unchanged(s, x, e.lin(y)); ok {
			return r
		}
		return Cond{Op: EQ, L: x.Add(e.lin(y), -1)}
	case Cond:
		cy := y.(Cond)
		a, b := s.require(x), s.require(cy)
		return boolVal(a == b)
	case Str:
		return e.equalStr(s, x, y.(Str))
	case Sl:
		// Only with nil.
		sy := e.asSlice(y)
		return Cond{Op: EQ, L: x.Ptr.Add(sy.Ptr, -1)}
	case Iface:
		yi := y.(Iface)
		switch {
		case x.T == nil && yi.T == nil:
			return Cond{Op: EQ, L: x.TW.Add(yi.TW, -1)}
		case x.T != nil && yi.T != nil:
			if !types.Identical(x.T, yi.T) {
				return boolVal(false)
			}
			return e.equal(s, x.V, yi.V)
		case x.T != nil && yi.T == nil:
			x, yi = yi, x
			fallthrough
		default:
			if n := s.F.norm(x.TW); n.IsC() && n.C == 0 {
				return boolVal(false)
			}
			return Cond{Op: IS, T: e.App("==", types.Typ[types.Bool], x, yi)}
		}
	case Agg:
		ay := y.(Agg)
		for i := range x.F {
			if !s.require(e.equal(s, x.F[i], ay.F[i])) {
				return boolVal(false)
			}
		}
		return boolVal(true)
	case Fn:
		return boolVal(false) // compared with nil
	case *Term:
		if l, ok := y.(Lin); ok && l.IsC() && l.C == 0 { // a function and nil
			return Cond{Op: IS, T: e.App("isnil", types.Typ[types.Bool], x)}
		}
		if ty, ok := y.(*Term); ok {
			if ty == x {
				return boolVal(true)
			}
			return Cond{Op: IS, T: e.App("==", types.Typ[types.Bool], x, ty)}
		}
	}
	e.fail("undecided", "comparison of %s and %s", Show(x), Show(y))
	return Cond{}
}

// content strips copies off a string or a part of it.
func (e *Eng) content(v Str) Str {
	for {
		var cp *Term
		for _, t := range v.Ptr.T {
			if t.K == 1 && t.A.Op == "app" && t.A.Name == "copy" {
				cp = t.A
			}
		}
		if cp == nil {
			return v
		}
		src := cp.Args[0].(Str)
		v = Str{src.Ptr.Add(v.Ptr.Add(A(cp), -1), 1), v.Len}
	}
}

func (e *Eng) equalStr(s *State, x, y Str) Cond {
	x, y = e.content(x), e.content(y)
	x = Str{s.F.norm(x.Ptr), s.F.norm(x.Len)}
	y = Str{s.F.norm(y.Ptr), s.F.norm(y.Len)}
	cx, okx := ConstStr(x)
	cy, oky := ConstStr(y)
	if okx && oky {
		return boolVal(cx == cy)
	}
	if x.Key() == y.Key() {
		return boolVal(true)
	}
	if oky && cy == "" {
		return Cond{Op: EQ, L: x.Len}
	}
	if okx && cx == "" {
		return Cond{Op: EQ, L: y.Len}
	}
	if s.F.nonzero(x.Len.Add(y.Len, -1)) {
		return boolVal(false)
	}
	if x.Key() > y.Key() {
		x, y = y, x
	}
	r := e.App("eqstr", types.Typ[types.Bool], x, y)
	if _, ok := s.F.bl[r]; !ok {
		// It may already be known in terms that are equal.
		var best *Term
		for t := range s.F.bl {
			if t.Op != "app" || t.Name != "eqstr" || best != nil && best.ID < t.ID {
				continue
			}
			a, ok := t.Args[0].(Str)
			b, ok2 := t.Args[1].(Str)
			if !ok || !ok2 {
				continue
			}
			a = Str{s.F.norm(a.Ptr), s.F.norm(a.Len)}
			b = Str{s.F.norm(b.Ptr), s.F.norm(b.Len)}
			if a.Key() == x.Key() && b.Key() == y.Key() || a.Key() == y.Key() && b.Key() == x.Key() {
				best = t
			}
		}
		if best != nil {
			r = best
		}
	}
	return Cond{Op: IS, T: r}
}

func (e *Eng) toStr(v Val) Str {
	switch v := v.(type) {
	case Str:
		return v
	case Sl:
		return Str{v.Ptr, v.Len}
	}
	e.fail("undecided", "not a string: %s", Show(v))
	return Str{}
}

func (e *Eng) convert(s *State, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case isInt(from) && isInt(to), isPtrType(from) && isPtrType(to),
		isPtrType(from) && isInt(to), isInt(from) && isPtrType(to):
		if isInt(from) && isInt(to) && e.sizeof(to) < e.sizeof(from) && e.sizeof(to) < 4 {
			l := s.F.norm(e.lin(v))
			if l.IsC() {
				return C(truncInt(l.C, tu.(*types.Basic)))
			}
			return A(e.App("conv "+tu.String(), to, l))
		}
		if isInt(from) && isInt(to) {
			// A result of a parser that's narrowed loses digits; indexes don't.
			if l, ok := v.(Lin); ok && e.sizeof(to) < e.sizeof(from) && mentions(l, func(t *Term) bool { return t.Op == "app" && t.Op != "load" }) && parsed(l) {
				return A(e.App("conv "+tu.String(), to, s.F.norm(l)))
			}
		}
		return v
	case isFloat(to) || isFloat(from):
		if types.Identical(fu, tu) {
			return v
		}
		t := e.App("conv "+tu.String(), to, v)
		return e.wrap(t, to)
	case isString(to) && isString(from):
		return v
	case isString(to):
		switch fs := fu.(type) {
		case *types.Slice:
			_ = fs
			return e.copyStr(v)
		}
		return e.appVal(e.App("conv string", nil, v), to)
	case isString(from):
		if _, ok := tu.(*types.Slice); ok {
			x := v.(Str)
			n := s.F.norm(x.Len)
			if n.IsC() && n.C == 0 {
				return Sl{}
			}
			t := e.App("copy", tyBytePtr, x)
			t.NonZero = true
			return Sl{A(t), x.Len, x.Len}
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	e.fail("undecided", "conversion from %s to %s", from, to)
	return nil
}

// parsed returns true if l is a number that was parsed.
func parsed(l Lin) bool {
	return len(l.T) == 1 && l.T[0].A.Op == "proj"
}

func truncInt(v int64, b *types.Basic) int64 {
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func (e *Eng) copyStr(v Val) Val {
	x := e.toStr(v)
	if x.Len.IsC() && x.Len.C == 0 {
		return Str{}
	}
	t := e.App("copy", tyBytePtr, x)
	t.NonZero = true
	return Str{A(t), x.Len}
}

func (e *Eng) indexed(s *State, ptr, lo, hi, n Lin, pos token.Pos) {
	if e.OnIndex != nil {
		e.OnIndex(s, ptr, lo, hi, n, pos)
	}
}

func (e *Eng) slice(s *State, c *Call, in *ssa.Slice) Val {
	x := e.val(c, in.X)
	lo := C(0)
	if in.Low != nil {
		lo = e.lin(e.val(c, in.Low))
	}
	var hi, max *Lin
	if in.High != nil {
		h := e.lin(e.val(c, in.High))
		hi = &h
	}
	if in.Max != nil {
		m := e.lin(e.val(c, in.Max))
		max = &m
	}
	switch x := x.(type) {
	case Str:
		if hi == nil {
			hi = &x.Len
		}
		e.indexed(s, x.Ptr, lo, *hi, x.Len, in.Pos())
		return Str{x.Ptr.Add(lo, 1), hi.Add(lo, -1)}
	case Sl:
		el := in.X.Type().Underlying().(*types.Slice).Elem()
		if hi == nil {
			hi = &x.Len
		}
		if max == nil {
			max = &x.Cap
		}
		e.indexed(s, x.Ptr, lo, *hi, x.Cap, in.Pos())
		return Sl{x.Ptr.Add(lo, e.sizeof(el)), hi.Add(lo, -1), max.Add(lo, -1)}
	case Lin:
		p := in.X.Type().Underlying().(*types.Pointer)
		at := p.Elem().Underlying().(*types.Array)
		n := C(at.Len())
		if hi == nil {
			hi = &n
		}
		if max == nil {
			max = &n
		}
		if at.Len() == 0 {
			// A composite literal without elements: non-nil.
			t := e.Ts.get("emptyslice", func() *Term {
				return &Term{Op: "app", Name: "empty", Typ: types.NewPointer(at.Elem()), NonZero: true}
			})
			return Sl{A(t), C(0), C(0)}
		}
		return Sl{x.Add(lo, e.sizeof(at.Elem())), hi.Add(lo, -1), max.Add(lo, -1)}
	}
	e.fail("undecided", "slice of %s", Show(x))
	return nil
}

func (e *Eng) typeAssert(s *State, c *Call, in *ssa.TypeAssert) Val {
	x, ok := e.val(c, in.X).(Iface)
	if !ok {
		e.fail("undecided", "type assertion on %s", Show(e.val(c, in.X)))
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	res := func(v Val, ok bool) Val {
		if in.CommaOk {
			return Tuple{[]Val{v, boolVal(ok)}}
		}
		if !ok {
			panic(stop{rule: "panic", msg: "type assertion fails"})
		}
		return v
	}
	if x.T != nil {
		if toIface {
			it := in.AssertedType.Underlying().(*types.Interface)
			if types.Implements(x.T, it) {
				return res(x, true)
			}
			return res(Iface{}, false)
		}
		if types.Identical(x.T, in.AssertedType) {
			return res(x.V, true)
		}
		return res(e.zero(in.AssertedType), false)
	}
	if n := s.F.norm(x.TW); n.IsC() && n.C == 0 {
		return res(e.zero(in.AssertedType), false)
	}
	is := Cond{Op: IS, T: e.App("is "+types.TypeString(in.AssertedType, nil), types.Typ[types.Bool], x)}
	if !in.CommaOk {
		// The success is taken for granted, as are the other run-time checks.
		s.F.Assume(is)
	} else if !s.require(is) {
		return res(e.zero(in.AssertedType), false)
	}
	if toIface {
		return res(x, true)
	}
	return res(e.appVal(e.App("as "+types.TypeString(in.AssertedType, nil), nil, x), in.AssertedType), true)
}

// CalleeName names a function by its package and generic name.
func CalleeName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	pk := ""
	if o.Object() != nil && o.Object().Pkg() != nil {
		pk = o.Object().Pkg().Path()
	}
	recv := ""
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name() + "."
		}
	}
	return pk + "." + recv + o.Name()
}

func (e *Eng) call(s *State, c *Call, in *ssa.Call) (Val, bool) {
	cc := in.Call
	if cc.IsInvoke() {
		x := e.val(c, cc.Value)
		args := append([]Val{x}, e.args(c, cc.Args)...)
		name := "invoke." + cc.Method.Name()
		if e.Call != nil {
			if v, ok := e.Call(e, s, name, nil, args, in.Type(), in.Pos()); ok {
				return v, true
			}
		}
		e.fail("undecided", "call of method %s", cc.Method.Name())
	}
	fv := e.val(c, cc.Value)
	args := e.args(c, cc.Args)
	if b, ok := fv.(Built); ok {
		return e.builtin(s, c, in, b.B.Name(), args), true
	}
	if t, ok := fv.(*Term); ok && e.Dynamic != nil {
		if f := e.Dynamic(t); f != nil {
			fv = *f
		}
	}
	f, ok := fv.(Fn)
	if !ok {
		e.fail("undecided", "call of an unresolved function %s", Show(fv))
	}
	if e.Call != nil {
		if v, ok := e.Call(e, s, CalleeName(f.Fn), f.Fn, args, in.Type(), in.Pos()); ok {
			return v, true
		}
	}
	if len(f.Fn.Blocks) > 0 && e.Inline(f.Fn) {
		e.enter(s, f, args, in, nil)
		return nil, false
	}
	e.fail("undecided", "call of %s", CalleeName(f.Fn))
	return nil, false
}

func (e *Eng) builtin(s *State, c *Call, in *ssa.Call, name string, args []Val) Val {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			return x.Len
		case Sl:
			if name == "cap" {
				return x.Cap
			}
			return x.Len
		case Lin:
			t := e.App("maplen", tyLen, x)
			t.NonNeg = true
			return A(t)
		}
	case "append":
		if e.Append != nil {
			if v, ok := e.Append(e, s, in.Type(), args, in.Pos()); ok {
				return v
			}
		}
		return e.appendVals(s, in, args)
	case "copy":
		v := e.App("copied", tyInt, args...)
		s.push(&Entry{Kind: EEvent, Ev: &Event{Name: "copy", Args: args, Pos: in.Pos()}})
		return A(v)
	case "String", "StringData", "SliceData", "Slice", "Add": // of package unsafe
		switch name {
		case "String":
			return Str{e.lin(args[0]), e.lin(args[1])}
		case "StringData":
			return args[0].(Str).Ptr
		case "SliceData":
			return e.asSlice(args[0]).Ptr
		case "Slice":
			return Sl{e.lin(args[0]), e.lin(args[1]), e.lin(args[1])}
		}
		return e.lin(args[0]).Add(e.lin(args[1]), 1)
	case "min", "max":
		x, y := e.lin(args[0]), e.lin(args[1])
		if s.require(Cond{Op: GE, L: x.Add(y, -1)}) == (name == "max") {
			return x
		}
		return y
	case "delete", "clear":
		s.push(&Entry{Kind: EEvent, Ev: &Event{Name: name, Args: args, Pos: in.Pos()}})
		return Tuple{}
	case "recover":
		return Iface{}
	case "ssa:wrapnilchk":
		return args[0]
	}
	e.fail("undecided", "builtin %s", name)
	return nil
}

// appendVals models append as a new slice value that remembers its parts.
func (e *Eng) appendVals(s *State, in *ssa.Call, args []Val) Val {
	el := in.Type().Underlying().(*types.Slice).Elem()
	x := e.asSlice(args[0])
	var n Lin
	var src Val
	switch y := args[1].(type) {
	case Str:
		n, src = y.Len, y
	default:
		sl := e.asSlice(y)
		n, src = sl.Len, sl
		// Remember the values if their number is known.
		if k := s.F.norm(sl.Len); k.IsC() && k.C <= 4 {
			var a Agg
			for i := int64(0); i < k.C; i++ {
				a.F = append(a.F, e.Load(s, sl.Ptr.AddC(i*e.sizeof(el)), el))
			}
			src = a
		}
	}
	if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && x.Cap.IsC() && x.Cap.C == 0 {
		// It's a copy of the bytes, and nil if there are none.
		text := Str{Len: n}
		switch y := src.(type) {
		case Str:
			text.Ptr = y.Ptr
		case Sl:
			text.Ptr = y.Ptr
		}
		if _, ok := src.(Agg); !ok {
			t := e.App("copy", tyBytePtr, text, C(0))
			ct := e.Ts.get(fmt.Sprintf("proj %d cap", t.ID), func() *Term {
				return &Term{Op: "proj", Name: "cap", Args: []Val{t}, Typ: tyLen, NonNeg: true}
			})
			return Sl{A(t), n, A(ct)}
		}
	}
	t := e.App("append", types.NewPointer(el), x, src)
	ct := e.Ts.get(fmt.Sprintf("proj %d cap", t.ID), func() *Term {
		return &Term{Op: "proj", Name: "cap", Args: []Val{t}, Typ: tyLen, NonNeg: true}
	})
	s.push(&Entry{Kind: EEvent, Ev: &Event{Name: "append", Args: []Val{x, src}, Res: A(t), Pos: in.Pos()}})
	return Sl{A(t), x.Len.Add(n, 1), A(ct)}
}
