package decode

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"jscheck/consts"
	"jscheck/flow"
	"jscheck/load"
)

var errorT = types.Universe.Lookup("error").Type()

// fresh makes the result of an allocation: a new memory block per call on a path.
func (m *Model) fresh(s *flow.State, name string, t types.Type, args []flow.Val) *flow.Term {
	n := 0
	for _, en := range flow.Entries(s.Log, nil) {
		if en.Kind == flow.EEvent && en.Ev.Name == name {
			n++
		}
	}
	tm := m.E.App(name, t, append(append([]flow.Val{}, args...), flow.C(int64(n)))...)
	tm.NonZero = true
	return tm
}

func event(s *flow.State, name string, args []flow.Val, res flow.Val, pos token.Pos) {
	s.Push(&flow.Entry{Kind: flow.EEvent, Ev: &flow.Event{Name: name, Args: args, Res: res, Pos: pos}, Pos: pos})
}

func (m *Model) havoc(s *flow.State, match func(a flow.Lin, n int64) bool) {
	s.Push(&flow.Entry{Kind: flow.EHavoc, Match: match, Ver: m.E.Version()})
}

func isUser(a flow.Lin, n int64) bool {
	b := flow.Base(a)
	return flow.Region(a) == "user" && b != nil
}

// recVersion numbers the states of the recursion on a path.
func recVersion(s *flow.State) flow.Val {
	n := int64(0)
	for _, en := range flow.Entries(s.Log, nil) {
		if en.Kind == flow.EEvent && (en.Ev.Name == "enter" || en.Ev.Name == "leave") {
			n++
		}
		if en.Kind == flow.ELoop && loopHas(en.Loop, isRecursion) {
			n += 1000 * int64(en.Loop.Ver)
		}
	}
	return flow.C(n)
}

func isRecursion(en *flow.Entry) bool {
	return en.Kind == flow.EEvent && (en.Ev.Name == "enter" || en.Ev.Name == "leave")
}

// loopHas returns true if an iteration makes an entry that satisfies p.
func loopHas(r *flow.LoopRec, p func(*flow.Entry) bool) bool {
	for _, b := range r.Backs {
		for _, en := range b.Entries {
			if p(en) || en.Kind == flow.ELoop && loopHas(en.Loop, p) {
				return true
			}
		}
	}
	return false
}

func lastRecursion(s *flow.State) *flow.Entry {
	es := flow.Entries(s.Log, nil)
	for i := len(es) - 1; i >= 0; i-- {
		if isRecursion(es[i]) {
			return es[i]
		}
		if es[i].Kind == flow.ELoop && loopHas(es[i].Loop, isRecursion) {
			return nil
		}
	}
	return nil
}

// dynamic matches the fields of frames that change at run time.
func (m *Model) dynamic(a flow.Lin, n int64) bool {
	if flow.Region(a) != flow.Region(m.Frames) {
		return false
	}
	d := a.Add(m.Frames, -1)
	off := ((d.C % m.FS) + m.FS) % m.FS
	for _, f := range []string{"Dest", "Offset", "Len", "RecursionStack"} {
		o := m.Off(m.Frame, f)
		if off >= o && off < o+m.E.Sizes.Sizeof(fieldType(m.Frame, f)) {
			return true
		}
	}
	return false
}

// recursionMethod classifies the methods that manage the recursion.
func (m *Model) recursionMethod(fn *ssa.Function) string {
	if k, ok := m.contract[fn]; ok {
		return k
	}
	k := ""
	if sus, rec, appends := m.recursionFields(fn); sus || rec {
		rt, _ := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic)
		switch {
		case rt != nil && rt.Kind() == types.Bool:
			if sus || !m.otherTest(fn) {
				k = "in"
			}
		case !sus:
		case appends:
			k = "enter"
		default:
			k = "leave"
		}
	}
	m.contract[fn] = k
	return k
}

// recursionFields tells which fields a method that takes the index of a frame uses.
func (m *Model) recursionFields(fn *ssa.Function) (sus, rec, appends bool) {
	r := fn.Signature.Recv()
	if r == nil || !types.Identical(r.Type(), types.NewPointer(m.DecT)) || fn.Signature.Params().Len() != 1 ||
		fn == m.Decode || fn.Signature.Results().Len() != 1 {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				switch st.Field(in.Field).Name() {
				case "suspended":
					sus = true
				case "RecursionStack":
					rec = true
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					appends = true
				}
			}
		}
	}
	return
}

// otherTest tells whether there's another method that tests for recursions.
func (m *Model) otherTest(not *ssa.Function) bool {
	ms := m.P.Prog.MethodSets.MethodSet(types.NewPointer(m.DecT))
	for i := 0; i < ms.Len(); i++ {
		fn := m.P.Prog.MethodValue(ms.At(i))
		if fn == not {
			continue
		}
		if sus, rec, _ := m.recursionFields(fn); sus || rec {
			rt, _ := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic)
			if rt != nil && rt.Kind() == types.Bool {
				return true
			}
		}
	}
	return false
}

// isDecodeAny recognizes the recursive function that decodes into any.
func isDecodeAny(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	if rs.Len() != 3 || fn.Signature.Params().Len() != 2 {
		return false
	}
	if _, ok := rs.At(0).Type().Underlying().(*types.Interface); !ok {
		return false
	}
	if _, ok := rs.At(1).Type().Underlying().(*types.Slice); !ok {
		return false
	}
	return true
}

func (m *Model) hooks() {
	e := m.E
	e.Inline = func(fn *ssa.Function) bool {
		if m.P.InModule(fn) {
			return true
		}
		return strings.HasSuffix(load.PkgPath(fn), "jscan/v2")
	}
	e.NameLoad = m.nameLoad
	e.OnLoad = func(t *flow.Term) {
		if m.loads != nil {
			m.loads[t] = true
		}
	}
	e.Dynamic = func(t *flow.Term) *flow.Fn {
		if t.Op == "load" && len(t.Addr.T) == 1 && t.Addr.T[0].A == m.D {
			if f, ok := m.funcs[t.Addr.C]; ok {
				return &f
			}
		}
		return nil
	}
	e.ZeroedResult = func(t *flow.Term) bool {
		switch t.Name {
		case "newarray", "mallocgc", "makeslice":
			return true
		}
		return false
	}
	e.Axioms = func(t *flow.Term) {
		if b := flow.Base(t.Addr); t.Op == "load" && b != nil && b.G != nil && m.nonNil[b.G] {
			t.NonZero = true
		}
		if t.Op != "load" || m.Tok == nil {
			return
		}
		// Indexes and numbers of elements aren't negative.
		if flow.Region(t.Addr) == flow.Region(m.Tokens.Ptr) && isIntT(t.Typ) {
			t.NonNeg = true
		}
		if t.Typ != nil && t.Op == "load" && flow.Region(t.Addr) == flow.Region(m.Frames) {
			if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				t.NonNeg = true
			}
		}
	}
	e.Call = m.call
	e.ZeroGlobals = map[*ssa.Global]bool{}
	m.findZeroGlobals()
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// findZeroGlobals finds the variables of the package that are never written to.
func (m *Model) findZeroGlobals() {
	written := map[*ssa.Global]bool{}
	inits := map[*ssa.Global]int{}
	m.nonNil = map[*ssa.Global]bool{}
	for _, fn := range m.P.AllFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ops := in.Operands(nil)
				for i, op := range ops {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && i == 0 {
						continue // a read
					}
					written[g] = true
					inits[g]++
					if st, ok := in.(*ssa.Store); ok && i == 0 && fn == m.P.Root.Func("init") {
						switch v := st.Val.(type) {
						case *ssa.Call:
							_, iface := v.Type().Underlying().(*types.Interface)
							m.nonNil[g] = iface
						case *ssa.Convert:
							_, alloc := v.X.(*ssa.Alloc)
							m.nonNil[g] = alloc
						case *ssa.MakeInterface, *ssa.Alloc:
							m.nonNil[g] = true
						}
					}
				}
			}
		}
	}
	for g := range m.nonNil {
		if inits[g] != 1 {
			delete(m.nonNil, g)
		}
	}
	m.E.Tables = map[*ssa.Global]map[int64]constant.Value{}
	m.E.Maps = map[*ssa.Global][][2]constant.Value{}
	known := consts.Globals(m.P.Root, m.P.AllFuncs(), m.P.Sizes)
	for _, mem := range m.P.Root.Members {
		g, ok := mem.(*ssa.Global)
		if !ok {
			continue
		}
		if !written[g] {
			m.E.ZeroGlobals[g] = true
		} else if tab := m.table(g); tab != nil {
			m.E.Tables[g] = tab
		} else if tab := m.constTable(g, known[g]); tab != nil {
			m.E.Tables[g] = tab
		} else if mp, ok := known[g].(*consts.Map); ok && !mp.Bad {
			m.E.Maps[g] = constMap(mp)
			if m.E.Maps[g] == nil {
				delete(m.E.Maps, g)
			}
		}
	}
}

// constTable are the elements of an array of constants that aren't zero.
func (m *Model) constTable(g *ssa.Global, v consts.Val) map[int64]constant.Value {
	arr, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	a, ok2 := v.(consts.Agg)
	if !ok || !ok2 {
		return nil
	}
	b, ok := arr.Elem().Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return nil
	}
	size := m.P.Sizes.Sizeof(arr.Elem())
	tab := map[int64]constant.Value{}
	for i, x := range a {
		c, ok := x.(constant.Value)
		if !ok {
			return nil
		}
		if c.Kind() == constant.Int && constant.Sign(c) != 0 || c.Kind() == constant.Bool && constant.BoolVal(c) {
			tab[int64(i)*size] = c
		}
	}
	return tab
}

// constMap are the entries of a map of constants.
func constMap(mp *consts.Map) [][2]constant.Value {
	out := [][2]constant.Value{}
	for i := range mp.K {
		k, ok := mp.K[i].(constant.Value)
		v, ok2 := mp.V[i].(constant.Value)
		if !ok || !ok2 {
			return nil
		}
		out = append(out, [2]constant.Value{k, v})
	}
	return out
}

// table returns the elements of an array of constants that's only written to
// by the initialization of the package, at constant indexes.
func (m *Model) table(g *ssa.Global) map[int64]constant.Value {
	arr, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	if b, ok := arr.Elem().Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return nil
	}
	size := m.P.Sizes.Sizeof(arr.Elem())
	init := m.P.Root.Func("init")
	tab := map[int64]constant.Value{}
	put := func(ix *ssa.IndexAddr, st *ssa.Store) bool {
		i, ok := ix.Index.(*ssa.Const)
		v, ok2 := st.Val.(*ssa.Const)
		if !ok || !ok2 || st.Addr != ssa.Value(ix) || st.Parent() != init || v.Value == nil {
			return false
		}
		_, ok = tab[i.Int64()*size]
		tab[i.Int64()*size] = v.Value
		return !ok
	}
	elem := func(ix *ssa.IndexAddr) bool {
		for _, r := range *ix.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
			case *ssa.DebugRef:
			case *ssa.Store:
				if !put(ix, r) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	whole := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || len(tab) > 0 {
			return false
		}
		lit, ok := u.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *lit.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
				if r != u {
					return false
				}
			case *ssa.IndexAddr:
				if !elem(r) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range m.P.AllFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					uses = uses || *op == ssa.Value(g)
				}
				if !uses {
					continue
				}
				switch in := in.(type) {
				case *ssa.UnOp:
				case *ssa.IndexAddr:
					if !elem(in) {
						return nil
					}
				case *ssa.Store:
					if in.Addr != ssa.Value(g) || fn != init || !whole(in.Val) {
						return nil
					}
				default:
					return nil
				}
			}
		}
	}
	return tab
}

func (m *Model) strArgs(args []flow.Val) []flow.Val {
	var out []flow.Val
	for _, a := range args {
		switch a := a.(type) {
		case flow.Str, flow.Sl:
			out = append(out, m.E.ToStr(a))
		default:
			out = append(out, a)
		}
	}
	return out
}

func normArgs(s *flow.State, args []flow.Val) []flow.Val {
	out := make([]flow.Val, len(args))
	for i, a := range args {
		switch a := a.(type) {
		case flow.Lin:
			out[i] = s.F.Norm(a)
		case flow.Str:
			out[i] = flow.Str{Ptr: s.F.Norm(a.Ptr), Len: s.F.Norm(a.Len)}
		case flow.Sl:
			out[i] = flow.Sl{Ptr: s.F.Norm(a.Ptr), Len: s.F.Norm(a.Len), Cap: s.F.Norm(a.Cap)}
		default:
			out[i] = a
		}
	}
	return out
}

// pure is the result of a function that depends on its arguments only.
func (m *Model) pure(s *flow.State, name string, args []flow.Val, res types.Type) flow.Val {
	t := m.E.App(name, nil, normArgs(s, m.strArgs(args))...)
	m.results[t] = res
	return m.E.AppVal(t, res)
}

// stringCall makes equivalent calls of the packages strings and bytes equal.
func (m *Model) stringCall(s *flow.State, name string, args []flow.Val, res types.Type) (flow.Val, bool) {
	str := func(i int) flow.Str { return m.E.ToStr(args[i]) }
	index := func(sep flow.Val) flow.Lin {
		return m.pure(s, "IndexByte", []flow.Val{args[0], sep}, types.Typ[types.Int]).(flow.Lin)
	}
	oneByte := func(i int) (flow.Val, bool) {
		if l, ok := args[i].(flow.Lin); ok && l.IsC() && l.C < 128 {
			return l, true
		}
		if l, ok := args[i].(flow.Lin); ok && l.IsC() {
			return nil, false
		}
		if c, ok := flow.ConstStr(args[i]); ok && len(c) == 1 {
			return flow.C(int64(c[0])), true
		}
		return nil, false
	}
	switch name {
	case "IndexByte":
		return index(args[1]), true
	case "Index", "IndexRune", "IndexAny":
		if b, ok := oneByte(1); ok {
			return index(b), true
		}
	case "Contains", "ContainsRune", "ContainsAny":
		if b, ok := oneByte(1); ok {
			return flow.Cond{Op: flow.GE, L: index(b)}, true
		}
	case "Clone":
		if _, ok := args[0].(flow.Sl); !ok {
			return m.E.CopyStr(args[0]), true
		}
	case "EqualFold":
		return m.pure(s, "EqualFold", args, res), true
	case "Equal":
		return m.E.EqualStr(s, str(0), str(1)), true
	case "HasPrefix", "HasSuffix":
		x, c := str(0), str(1)
		if !s.Require(flow.Cond{Op: flow.GE, L: x.Len.Add(c.Len, -1)}) {
			return flow.Cond{}, true
		}
		if name == "HasSuffix" {
			x.Ptr = x.Ptr.Add(x.Len, 1).Add(c.Len, -1)
		}
		return m.E.EqualStr(s, flow.Str{Ptr: x.Ptr, Len: c.Len}, c), true
	}
	return nil, false
}

func (m *Model) call(e *flow.Eng, s *flow.State, name string, fn *ssa.Function, args []flow.Val, res types.Type, pos token.Pos) (flow.Val, bool) {
	short := name
	if i := strings.LastIndex(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	if fn != nil {
		pk := load.PkgPath(fn)
		switch {
		case strings.HasSuffix(pk, "/internal/atoi"):
			if m.P.InModule(fn) {
				return m.pure(s, "atoi."+fnName(fn), args, res), true
			}
			return m.pure(s, "jscan.atoi."+fnName(fn), args, res), true
		case strings.HasSuffix(pk, "/internal/jsonnum"):
			return m.pure(s, "ReadNumber", args, res), true
		case strings.HasSuffix(pk, "/internal/unescape"):
			return m.pure(s, "unescape", args, res), true
		case pk == "strings" || pk == "bytes":
			if v, ok := m.stringCall(s, short[strings.Index(short, ".")+1:], args, res); ok {
				return v, true
			}
			return m.pure(s, short, args, res), true
		case pk == "strconv" || pk == "errors" || pk == "fmt":
			return m.pure(s, short, args, res), true
		case pk == "reflect":
			return m.reflectCall(s, short, args, res, pos)
		}
		if k := m.recursionMethod(fn); k != "" && len(args) == 2 {
			return m.recursion(s, k, args[1].(flow.Lin), pos), true
		}
		if m.P.InModule(fn) && m.decodesAny(fn) && m.Tok != nil {
			return m.decodeAnyCall(s, args, res, pos), true
		}
		if m.P.InModule(fn) && len(fn.Blocks) == 0 {
			return m.runtimeCall(s, fnName(fn), args, res, pos), true
		}
		if strings.HasSuffix(pk, "jscan/v2") && fnName(fn) == "Tokenize" {
			event(s, "tokenize", args, nil, pos)
			if m.after != nil {
				return m.after(s, args, res), true
			}
			flow.Stop("tokenize", "")
		}
		return nil, false
	}
	switch short {
	case "invoke.UnmarshalJSON", "invoke.UnmarshalText":
		n := 0
		for _, en := range flow.Entries(s.Log, nil) {
			if en.Kind == flow.EEvent {
				n++
			}
		}
		r := m.E.AppVal(m.E.App(short, nil, append(append([]flow.Val{}, args...), flow.C(int64(n)))...), res)
		event(s, short, args, r, pos)
		m.havoc(s, isUser)
		return r, true
	case "invoke.Kind", "invoke.Elem", "invoke.Size", "invoke.Len", "invoke.Key", "invoke.NumMethod", "invoke.Name",
		"invoke.AssignableTo", "invoke.Implements", "invoke.NumField", "invoke.Field", "invoke.String", "invoke.PkgPath", "invoke.Align", "invoke.Error":
		return m.pure(s, short, args, res), true
	}
	return nil, false
}

func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		return fn.Origin().Name()
	}
	return fn.Name()
}

func (m *Model) reflectCall(s *flow.State, short string, args []flow.Val, res types.Type, pos token.Pos) (flow.Val, bool) {
	switch short {
	case "reflect.Value.IsNil", "reflect.Value.Interface", "reflect.Value.Elem", "reflect.Value.UnsafePointer":
		n := 0
		for _, en := range flow.Entries(s.Log, nil) {
			if en.Kind == flow.EEvent || en.Kind == flow.EHavoc {
				n++
			}
		}
		if short == "reflect.Value.IsNil" || short == "reflect.Value.Interface" {
			args = append(append([]flow.Val{}, args...), flow.C(int64(n)))
		}
		return m.pure(s, short, args, res), true
	case "reflect.Value.Set":
		event(s, short, args, nil, pos)
		m.havoc(s, isUser)
		return flow.Tuple{}, true
	case "reflect.New":
		n := 0
		for _, en := range flow.Entries(s.Log, nil) {
			if en.Kind == flow.EEvent && en.Ev.Name == short {
				n++
			}
		}
		v := m.E.AppVal(m.E.App(short, nil, append(normArgs(s, args), flow.C(int64(n)))...), res)
		event(s, short, args, v, pos)
		return v, true
	case "reflect.NewAt", "reflect.TypeOf", "reflect.PointerTo", "reflect.Value.Type", "reflect.Value.Kind",
		"reflect.Value.Addr", "reflect.ValueOf", "reflect.Indirect", "reflect.Value.IsValid":
		return m.pure(s, short, args, res), true
	}
	return nil, false
}

func (m *Model) runtimeCall(s *flow.State, name string, args []flow.Val, res types.Type, pos token.Pos) flow.Val {
	args = normArgs(s, args)
	switch name {
	case "noescape":
		return args[0]
	case "newarray", "mallocgc", "makemap":
		n := 1
		if name == "mallocgc" {
			n = 0
		}
		if l, ok := args[n].(flow.Lin); ok && m.E.OnAlloc != nil {
			m.E.OnAlloc(s, l, pos)
		}
		t := m.fresh(s, name, types.Typ[types.UnsafePointer], args)
		event(s, name, args, flow.A(t), pos)
		return flow.A(t)
	case "mapassign", "mapassign_faststr":
		// The key is what the pointer points to.
		if name == "mapassign" {
			args = append(append([]flow.Val{}, args...), m.keyAt(s, args[2].(flow.Lin)))
		}
		t := m.fresh(s, name, types.Typ[types.UnsafePointer], args)
		event(s, name, args, flow.A(t), pos)
		return flow.A(t)
	case "typedslicecopy":
		event(s, name, args, nil, pos)
		dst := flow.Base(args[1].(flow.Lin))
		m.havoc(s, func(a flow.Lin, n int64) bool {
			if flow.IsFresh(dst) {
				return flow.Base(a) == dst
			}
			return isUser(a, n)
		})
		return flow.A(m.E.App("copied", types.Typ[types.Int], args...))
	case "typedmemclr", "typedmemmove":
		event(s, name, args, nil, pos)
		m.havoc(s, isUser)
		return flow.Tuple{}
	}
	flow.Stop("undecided", "call of the unknown function "+name)
	return nil
}

// keyAt is the value of the key p points to.
func (m *Model) keyAt(s *flow.State, p flow.Lin) flow.Val {
	b := flow.Base(p)
	if b == nil || b.Op != "alloc" {
		return flow.C(0)
	}
	el := b.Typ.Underlying().(*types.Pointer).Elem()
	return m.E.Load(s, p, el)
}

func (m *Model) decodeAnyCall(s *flow.State, args []flow.Val, res types.Type, pos token.Pos) flow.Val {
	sl, ok := args[1].(flow.Sl)
	if !ok {
		flow.Stop("undecided", "decodeAny on an unknown slice")
	}
	idx, ok := m.tokIndex(s, sl.Ptr)
	if !ok {
		flow.Stop("undecided", "decodeAny on another slice than the tokens")
	}
	typ := m.tok(s, idx, "Type")
	comp := s.Require(flow.Cond{Op: flow.EQ, L: typ.AddC(-m.kinds["Object"])}) ||
		s.Require(flow.Cond{Op: flow.EQ, L: typ.AddC(-m.kinds["Array"])})
	next := idx.AddC(1)
	if comp {
		next = m.tok(s, idx, "End").AddC(1)
		if m.E.Cursors {
			s.F.Assume(flow.Cond{Op: flow.GE, L: next.Add(idx, -1).AddC(-2)})
		}
	}
	d := next.Add(idx, -1)
	app := m.E.App("decodeAny", nil, m.E.ToStr(args[0]), idx)
	tt := res.(*types.Tuple)
	v := m.E.AppVal(m.E.App("any value", nil, m.E.ToStr(args[0]), idx), tt.At(0).Type())
	er := m.E.AppVal(m.E.App("any error", nil, app), tt.At(2).Type())
	// The tail is only valid without an error.
	tail := flow.Sl{Ptr: sl.Ptr.Add(d, m.TS), Len: sl.Len.Add(d, -1), Cap: sl.Cap.Add(d, -1)}
	if !s.Require(flow.Cond{Op: flow.EQ, L: er.(flow.Iface).TW}) && !m.E.Cursors {
		tail = flow.Sl{}
	}
	return flow.Tuple{F: []flow.Val{v, tail, er}}
}

// tokIndex is the index of the token at an address.
func (m *Model) tokIndex(s *flow.State, p flow.Lin) (flow.Lin, bool) {
	d := s.F.Norm(p.Add(m.Tokens.Ptr, -1))
	return divLin(d, m.TS)
}

func divLin(d flow.Lin, n int64) (flow.Lin, bool) {
	if d.C%n != 0 {
		return flow.Lin{}, false
	}
	out := flow.Lin{C: d.C / n}
	for _, t := range d.T {
		if t.K%n != 0 {
			return flow.Lin{}, false
		}
		out.T = append(out.T, flow.LT{A: t.A, K: t.K / n})
	}
	return out, true
}

func (m *Model) recursion(s *flow.State, kind string, frame flow.Lin, pos token.Pos) flow.Val {
	frame = s.F.Norm(frame)
	switch kind {
	case "in":
		return m.inRecursion(s, frame)
	case "enter":
		f := m.fr(s, frame, "RecurFrame").(flow.Lin)
		event(s, "enter", []flow.Val{frame}, f, pos)
		rs := m.frameAddr(f, "RecursionStack")
		m.havoc(s, func(a flow.Lin, n int64) bool {
			d := a.Add(rs, -1)
			return d.IsC() && d.C >= 0 && d.C < 3*m.E.Word()
		})
		// The container is on the top of the stack of the recursion.
		st := m.E.App("recursions", types.NewPointer(m.Rec), frame, recVersion(s))
		st.NonZero = true
		n := m.E.App("recursion depth", flow.TyLen, frame, recVersion(s))
		n.NonNeg, n.NonZero = true, true
		m.E.Store(s, rs, fieldType(m.Frame, "RecursionStack"), flow.Sl{Ptr: flow.A(st), Len: flow.A(n), Cap: flow.A(n)}, 0)
		top := flow.A(st).Add(flow.A(n).AddC(-1), m.E.Sizes.Sizeof(m.Rec)).AddC(m.Off(m.Rec, "ContainerFrame"))
		m.E.Store(s, top, fieldType(m.Rec, "ContainerFrame"), frame, 0)
		m.E.Store(s, m.frameAddr(f, "Offset"), types.Typ[types.Uintptr], flow.C(0), 0)
		return f
	}
	rs := m.fr(s, frame, "RecursionStack").(flow.Sl)
	sz := m.E.Sizes.Sizeof(m.Rec)
	c := m.E.Load(s, rs.Ptr.Add(rs.Len.AddC(-1), sz).AddC(m.Off(m.Rec, "ContainerFrame")), fieldType(m.Rec, "ContainerFrame"))
	event(s, "leave", []flow.Val{frame}, c, pos)
	m.havoc(s, m.dynamic)
	return c
}

// inRecursion is whether a frame's value is directly contained in a recursive one.
func (m *Model) inRecursion(s *flow.State, frame flow.Lin) flow.Cond {
	// Only the frames of recursive structs are ever entered.
	frame = s.F.Norm(frame)
	typ := m.fr(s, frame, "Type").(flow.Lin).AddC(-m.types["StructRecur"])
	if s.F.Decide(flow.Cond{Op: flow.EQ, L: typ}) == -1 {
		return flow.Cond{}
	}
	if en := lastRecursion(s); en != nil && en.Ev.Name == "enter" {
		if f := en.Ev.Res.(flow.Lin); s.F.Decide(flow.Cond{Op: flow.EQ, L: f.Add(frame, -1)}) == 1 {
			return flow.Cond{Op: flow.True}
		}
	}
	return flow.Cond{Op: flow.IS, T: m.E.App("inRecursion", types.Typ[types.Bool], frame, recVersion(s))}
}

func describe(v flow.Val) string { return fmt.Sprint(flow.Show(v)) }
