package decode

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
	"jscheck/load"
)

// Compiler is the model of the function that appends the frames of a type to the
// stack of frames. Its recursive calls are replaced by its contract: the frame of
// the type follows the frames given, which don't change except that recursive
// structs among them are marked.
type Compiler struct {
	*Model
	Fn                 *ssa.Function
	iStack, iType, iOp int // indexes of the parameters
	t                  flow.Iface
	L                  flow.Lin // number of frames given
	stack              flow.Sl
	op                 flow.Val
	start              *flow.State
	kindsOf            map[string]int64 // reflect.Kind
	kindT              types.Type
	knownTypes         map[*flow.Term]types.Type
}

const compileEvent = "compile"

// NewCompiler resolves an instance of the function.
func NewCompiler(p *load.Program, bytes bool) *Compiler {
	base := New(p, bytes)
	m := *base
	c := &Compiler{Model: &m}
	c.E = &flow.Eng{Sizes: p.Sizes, PosOf: func(q token.Pos) string { return p.Pos(q) }, MaxSteps: 4_000_000, Monotone: true}
	c.results = map[*flow.Term]types.Type{}
	c.D = c.E.Sym("decoder", types.NewPointer(m.DecT))
	c.D.NonZero = true
	c.hooks()
	c.E.Call = c.call
	c.E.Append = c.append
	c.E.GlobalVal = func(g *ssa.Global, off flow.Lin, t types.Type) (flow.Val, bool) {
		if k := c.typeOfGlobal(g); k != nil && t.String() == "reflect.Type" {
			return c.typeTerm(k), true
		}
		return nil, false
	}
	c.find()
	fr := c.E.Sym("frames", types.NewPointer(c.FrameT))
	fr.NonZero = true
	c.Frames = flow.A(fr)
	c.L = flow.A(c.nonNeg(c.E.Sym("number of frames", flow.TyLen)))
	c.stack = flow.Sl{Ptr: c.Frames, Len: c.L, Cap: flow.A(c.nonNeg(c.E.Sym("capacity", flow.TyLen)))}
	c.t = flow.Iface{TW: flow.A(c.E.Sym("type", c.Fn.Params[c.iType].Type()))}
	op := c.E.Sym("options", c.Fn.Params[c.iOp].Type())
	op.NonZero = true
	c.op = flow.A(op)
	c.kindsOf = map[string]int64{}
	for _, imp := range p.Root.Pkg.Imports() {
		if imp.Path() != "reflect" {
			continue
		}
		for _, n := range imp.Scope().Names() {
			if k, ok := imp.Scope().Lookup(n).(*types.Const); ok {
				if nt, ok := k.Type().(*types.Named); ok && nt.Obj().Name() == "Kind" {
					c.kindT = nt
					x, _ := constant.Int64Val(k.Val())
					c.kindsOf[n] = x
				}
			}
		}
	}
	if c.kindT == nil {
		bail("the kinds of types aren't found")
	}
	return c
}

func (c *Compiler) nonNeg(t *flow.Term) *flow.Term { t.NonNeg = true; return t }

// find resolves the function and its parameters: it's given frames, a type and
// the options and returns frames and an error, and it's what the constructor calls.
func (c *Compiler) find() {
	want := func(fn *ssa.Function) bool {
		c.iStack, c.iType, c.iOp = -1, -1, -1
		r := fn.Signature.Results()
		if r.Len() != 2 || len(fn.Blocks) == 0 || !c.isStack(r.At(0).Type()) || r.At(1).Type().String() != "error" {
			return false
		}
		for i, p := range fn.Params {
			switch {
			case c.isStack(p.Type()):
				c.iStack = i
			case p.Type().String() == "reflect.Type":
				c.iType = i
			case strings.HasSuffix(p.Type().String(), "InitOptions"):
				c.iOp = i
			}
		}
		return c.iStack >= 0 && c.iType >= 0 && c.iOp >= 0
	}
	var work []*ssa.Function
	for _, name := range []string{"NewDecoder", "Unmarshal"} {
		work = append(work, c.P.Instances(c.P.ModPath, name)...)
	}
	seen := map[*ssa.Function]bool{}
	for ; len(work) > 0; work = work[1:] {
		if seen[work[0]] {
			continue
		}
		seen[work[0]] = true
		for _, b := range work[0].Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				fn := k.Call.StaticCallee()
				if fn == nil || !c.P.InModule(fn) {
					continue
				}
				if want(fn) {
					c.Fn = fn
					return
				}
				work = append(work, fn)
			}
		}
	}
	bail("the function that compiles types isn't found")
}

func (c *Compiler) isStack(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), c.FrameT)
}

// typeOfGlobal returns the type a variable of type reflect.Type describes.
func (c *Compiler) typeOfGlobal(g *ssa.Global) types.Type {
	init := c.P.Root.Func("init")
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				return typeOfValue(st.Val)
			}
		}
	}
	return nil
}

func typeOfValue(v ssa.Value) types.Type {
	k, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if k.Call.IsInvoke() {
		if k.Call.Method.Name() == "Elem" {
			if t := typeOfValue(k.Call.Value); t != nil {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					return p.Elem()
				}
			}
		}
		return nil
	}
	if fn := k.Call.StaticCallee(); fn != nil && fn.String() == "reflect.TypeOf" {
		if mi, ok := k.Call.Args[0].(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
	}
	return nil
}

// typeTerm is the reflect.Type of a known type.
func (c *Compiler) typeTerm(t types.Type) flow.Iface {
	x := c.E.Sym("type "+types.TypeString(t, nil), nil)
	x.NonZero = true
	if c.knownTypes == nil {
		c.knownTypes = map[*flow.Term]types.Type{}
	}
	c.knownTypes[x] = t
	return flow.Iface{TW: flow.A(x)}
}

// known is the type a reflect.Type describes, if it's known.
func (c *Compiler) known(v flow.Val) types.Type {
	if i, ok := v.(flow.Iface); ok && len(i.TW.T) == 1 && i.TW.C == 0 {
		return c.knownTypes[i.TW.T[0].A]
	}
	return nil
}

// append models the appending to the frames: they stay where they are, which is
// right if no slice is used after it was appended to.
func (c *Compiler) append(e *flow.Eng, s *flow.State, t types.Type, args []flow.Val, pos token.Pos) (flow.Val, bool) {
	if !c.isStack(t) {
		return nil, false
	}
	x := args[0].(flow.Sl)
	y, ok := args[1].(flow.Sl)
	if !ok {
		flow.Stop("undecided", "append of unknown frames")
	}
	n := s.F.Norm(y.Len)
	if !n.IsC() || n.C > 4 {
		flow.Stop("undecided", "append of unknown frames")
	}
	for i := int64(0); i < n.C; i++ {
		f := e.Load(s, y.Ptr.AddC(i*c.FS), c.FrameT)
		e.Store(s, x.Ptr.Add(x.Len.AddC(i), c.FS), c.FrameT, f, pos)
	}
	return flow.Sl{Ptr: x.Ptr, Len: x.Len.Add(n, 1), Cap: flow.A(c.nonNeg(e.App("grown", flow.TyLen, x.Cap, x.Len)))}, true
}

func (c *Compiler) call(e *flow.Eng, s *flow.State, name string, fn *ssa.Function, args []flow.Val, res types.Type, pos token.Pos) (flow.Val, bool) {
	if fn == nil {
		switch name {
		case "invoke.Implements":
			name = "invoke.AssignableTo"
		case "invoke.AssignableTo", "invoke.Kind", "invoke.Elem", "invoke.Size", "invoke.Len", "invoke.Key", "invoke.NumMethod",
			"invoke.NumField", "invoke.Field", "invoke.Name", "invoke.String", "invoke.PkgPath":
		default:
			return nil, false
		}
		if t := c.known(args[0]); t != nil && name == "invoke.Elem" {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return c.typeTerm(p.Elem()), true
			}
		}
		return c.typeFn(s, name, args, res), true
	}
	short := name
	if i := strings.LastIndex(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	switch {
	case c.same(fn):
		return c.compile(s, args, res, pos), true
	case short == "reflect.StructField.IsExported":
		st := fn.Signature.Recv().Type().Underlying().(*types.Struct)
		k := fieldIndex(st, "PkgPath")
		return flow.Cond{Op: flow.EQ, L: args[0].(flow.Agg).F[k].(flow.Str).Len}, true
	case short == "reflect.StructTag.Get" || short == "reflect.StructTag.Lookup" || short == "strings.Split":
		return c.pure(s, short, args, res), true
	case short == "reflect.PointerTo" || short == "reflect.PtrTo":
		return c.typeFn(s, "reflect.PointerTo", args, res), true
	case short == "reflect.TypeOf":
		if i, ok := args[0].(flow.Iface); ok && i.T != nil {
			return c.typeTerm(i.T), true
		}
	case short == "strings.Cut":
		x := c.E.ToStr(args[0])
		if sep, ok := flow.ConstStr(args[1]); ok && len(sep) == 1 {
			i := c.pure(s, "IndexByte", []flow.Val{x, flow.C(int64(sep[0]))}, types.Typ[types.Int]).(flow.Lin)
			if s.Require(flow.Cond{Op: flow.GE, L: i}) {
				return flow.Tuple{F: []flow.Val{flow.Str{Ptr: x.Ptr, Len: i}, flow.Str{Ptr: x.Ptr.Add(i, 1).AddC(1), Len: x.Len.Add(i, -1).AddC(-1)}, flow.Cond{Op: flow.True}}}, true
			}
			return flow.Tuple{F: []flow.Val{x, flow.Str{}, flow.Cond{Op: flow.False}}}, true
		}
	case short == "fmt.Errorf" || short == "errors.New":
		r := c.pure(s, short, args, res).(flow.Iface)
		r.TW.T[0].A.NonZero = true
		return r, true
	}
	return c.Model.call(e, s, name, fn, args, res, pos)
}

func (c *Compiler) same(fn *ssa.Function) bool {
	return fn == c.Fn || fn.Origin() != nil && fn.Origin() == c.Fn.Origin()
}

// typeFn is a property of a type.
func (c *Compiler) typeFn(s *flow.State, name string, args []flow.Val, res types.Type) flow.Val {
	r := c.pure(s, name, args, res)
	switch x := r.(type) {
	case flow.Iface:
		x.TW.T[0].A.NonZero = true
	case flow.Lin:
		x.T[0].A.NonNeg = true
	}
	return r
}

// compile is the contract of the function.
func (c *Compiler) compile(s *flow.State, args []flow.Val, res types.Type, pos token.Pos) flow.Val {
	st, ok := args[c.iStack].(flow.Sl)
	if !ok {
		flow.Stop("undecided", "unknown frames")
	}
	n := 0
	for _, en := range flow.Entries(s.Log, nil) {
		if isCompile(en) {
			n++
		}
	}
	st.Len = s.F.Norm(st.Len)
	app := c.E.App("compiled", nil, st.Len, args[c.iType], flow.C(int64(n)))
	more := c.E.Proj(app, "more", flow.TyLen).(flow.Lin)
	err := c.E.Proj(app, "err", res.(*types.Tuple).At(1).Type())
	r := flow.Tuple{F: []flow.Val{
		flow.Sl{Ptr: st.Ptr, Len: st.Len.Add(more, 1).AddC(1), Cap: c.E.Proj(app, "cap", flow.TyLen).(flow.Lin)},
		err,
	}}
	event(s, compileEvent, append([]flow.Val{}, args...), r, pos)
	f := s.F.Clone()
	c.havoc(s, func(a flow.Lin, n int64) bool {
		if flow.Base(a) != flow.Base(c.Frames) {
			return false
		}
		idx, field, ok := c.frameOf(f, a)
		if !ok || field == "Type" || strings.HasPrefix(field, "RecursionStack") {
			return true
		}
		return f.Decide(flow.Cond{Op: flow.GE, L: st.Len.Add(idx, -1).AddC(-1)}) != 1
	})
	// A frame knows its type if that's needed.
	c.E.Store(s, c.frameAddr(st.Len, "RType"), fieldType(c.Frame, "RType"), args[c.iType], token.NoPos)
	return r
}

func isCompile(en *flow.Entry) bool { return en.Kind == flow.EEvent && en.Ev.Name == compileEvent }

// Check validates the frames of all types.
func (c *Compiler) Check(rep *Rep) (paths int) {
	args := make([]flow.Val, len(c.Fn.Params))
	for i, p := range c.Fn.Params {
		args[i] = c.E.SymVal(p.Name(), p.Type())
	}
	args[c.iStack], args[c.iType], args[c.iOp] = c.stack, c.t, c.op
	c.start = c.E.Start(c.Fn, args)
	rep.Pairs++
	start := &flow.State{F: c.start.F.Clone(), Log: c.start.Log}
	c.head = start
	outs := c.E.Explore(c.start)
	for _, o := range outs {
		rep.Outcomes++
		c.checkOutcome("type", "", o, start, rep, func(v *V) { (&T{V: v, c: c}).run() })
	}
	return c.E.Paths
}

// DumpCompile renders the outcomes.
func (c *Compiler) DumpCompile() string {
	args := make([]flow.Val, len(c.Fn.Params))
	for i, p := range c.Fn.Params {
		args[i] = c.E.SymVal(p.Name(), p.Type())
	}
	args[c.iStack], args[c.iType], args[c.iOp] = c.stack, c.t, c.op
	st := c.E.Start(c.Fn, args)
	c.head = &flow.State{F: st.F.Clone(), Log: st.Log}
	outs := c.E.Explore(st)
	return fmt.Sprint(len(outs), "\n", c.Dump(outs))
}
