// Package consts determines the values that the variables of a package have once it
// is initialized, by propagating constants through the initialization of the package.
package consts

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A Val is one of: a constant.Value, an Agg, a Ptr, a Slice, a *Map, a Tuple, or nil
// if it isn't known.
type Val any

// Agg is the value of an array or a struct.
type Agg []Val

// Ptr points into an object.
type Ptr struct {
	O    *obj
	Path []int
}

// Slice is a part of an array.
type Slice struct {
	O        *obj
	Path     []int
	Off, Len int
}

// Map has entries in the order they were made.
type Map struct {
	K, V []Val
	Bad  bool // not all entries are known
}

// Tuple is the result of a function.
type Tuple []Val

// An obj is a piece of memory. If it's lost then it may be written to by anything.
type obj struct {
	v    Val
	lost bool
}

const (
	maxSteps = 2_000_000
	maxElems = 1 << 16
)

type giveUp struct{}

type interp struct {
	pkg   *ssa.Package
	sizes types.Sizes
	mem   map[*ssa.Global]*obj
	steps int
	depth int
}

// Globals returns the values of those variables of the package that have a known
// value that's never changed after the initialization.
func Globals(pkg *ssa.Package, fns []*ssa.Function, sizes types.Sizes) map[*ssa.Global]Val {
	in := &interp{pkg: pkg, sizes: sizes, mem: map[*ssa.Global]*obj{}}
	out := map[*ssa.Global]Val{}
	init := pkg.Func("init")
	if init == nil || !in.run(init) {
		return out
	}
	changed := map[*ssa.Global]bool{}
	for _, fn := range fns {
		if fn == init || fn.Pkg == pkg && isInit(fn) {
			continue
		}
		uses(fn, changed)
	}
	owners := map[any]map[*ssa.Global]bool{}
	var own func(g *ssa.Global, v Val)
	put := func(g *ssa.Global, o any) bool {
		if owners[o] == nil {
			owners[o] = map[*ssa.Global]bool{}
		}
		seen := owners[o][g]
		owners[o][g] = true
		return !seen
	}
	own = func(g *ssa.Global, v Val) {
		switch v := v.(type) {
		case Ptr:
			if put(g, v.O) {
				own(g, v.O.v)
			}
		case Slice:
			if v.O != nil && put(g, v.O) {
				own(g, v.O.v)
			}
		case *Map:
			if put(g, v) {
				for _, x := range v.V {
					own(g, x)
				}
			}
		case Agg:
			for _, x := range v {
				own(g, x)
			}
		}
	}
	for g, o := range in.mem {
		put(g, o)
		own(g, o.v)
	}
	// What's reachable from another variable may be changed by means of that.
	for _, gs := range owners {
		if len(gs) > 1 {
			for g := range gs {
				changed[g] = true
			}
		}
	}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok && !changed[g] {
			if o := in.mem[g]; o != nil {
				if v := o.v; v != nil && !o.lost {
					out[g] = v
				}
			} else if z := in.zero(elemOf(g.Type())); z != nil {
				out[g] = z
			}
		}
	}
	return out
}

func isInit(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Signature.Recv() == nil && len(fn.Name()) > 5 && fn.Name()[:5] == "init#"
}

func elemOf(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// uses finds the variables a function doesn't only read.
func uses(fn *ssa.Function, changed map[*ssa.Global]bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				if !reads(in, g) {
					changed[g] = true
				}
			}
		}
	}
}

// reads tells whether an instruction only reads what its operand points to.
func reads(in ssa.Instruction, p ssa.Value) bool {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return false
		}
		switch in.Type().Underlying().(type) {
		case *types.Basic, *types.Array, *types.Struct:
			return true
		case *types.Map, *types.Slice:
			return readsRef(in)
		}
		return false
	case *ssa.IndexAddr:
		return in.X == p && readsAll(in)
	case *ssa.FieldAddr:
		return readsAll(in)
	case *ssa.Slice:
		return readsRef(in)
	}
	return false
}

func readsAll(p ssa.Value) bool {
	for _, r := range *p.Referrers() {
		if !reads(r, p) {
			return false
		}
	}
	return true
}

// readsRef tells whether what a map or slice refers to is only read.
func readsRef(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
		case *ssa.IndexAddr:
			if !readsAll(r) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		case *ssa.BinOp:
		default:
			return false
		}
	}
	return true
}

func (in *interp) run(fn *ssa.Function) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(giveUp); !is {
				panic(r)
			}
			ok = false
		}
	}()
	in.call(fn, nil, nil)
	return true
}

func (in *interp) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.MakeBool(false)
		case u.Info()&types.IsInteger != 0:
			return constant.MakeInt64(0)
		case u.Info()&types.IsString != 0:
			return constant.MakeString("")
		case u.Info()&types.IsFloat != 0:
			return constant.ToFloat(constant.MakeInt64(0))
		}
	case *types.Array:
		if u.Len() > maxElems {
			return nil
		}
		a := make(Agg, u.Len())
		for i := range a {
			if a[i] = in.zero(u.Elem()); a[i] == nil {
				return nil
			}
		}
		return a
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = in.zero(u.Field(i).Type())
		}
		return a
	case *types.Slice:
		return Slice{}
	}
	return nil
}

func clone(v Val) Val {
	if a, ok := v.(Agg); ok {
		c := make(Agg, len(a))
		for i := range a {
			c[i] = clone(a[i])
		}
		return c
	}
	return v
}

func (p Ptr) load() Val {
	v := p.O.v
	for _, i := range p.Path {
		a, ok := v.(Agg)
		if !ok || i >= len(a) {
			return nil
		}
		v = a[i]
	}
	return clone(v)
}

func (p Ptr) store(x Val) {
	if p.O.lost {
		forget(x)
		return
	}
	x = clone(x)
	if len(p.Path) == 0 {
		p.O.v = x
		return
	}
	v := p.O.v
	for _, i := range p.Path[:len(p.Path)-1] {
		a, ok := v.(Agg)
		if !ok || i >= len(a) {
			p.O.v = nil
			return
		}
		v = a[i]
	}
	i := p.Path[len(p.Path)-1]
	if a, ok := v.(Agg); ok && i < len(a) {
		a[i] = x
	} else {
		p.O.v = nil
	}
}

func (p Ptr) at(i int) Ptr {
	return Ptr{p.O, append(append([]int{}, p.Path...), i)}
}

func (o *obj) lose() {
	if !o.lost {
		o.lost = true
		forget(o.v)
		o.v = nil
	}
}

// forget makes everything reachable from a value unknown.
func forget(v Val) {
	switch v := v.(type) {
	case Ptr:
		v.O.lose()
	case Slice:
		if v.O != nil {
			v.O.lose()
		}
	case *Map:
		if !v.Bad {
			v.Bad = true
			for _, x := range v.V {
				forget(x)
			}
		}
	case Agg:
		for _, x := range v {
			forget(x)
		}
	case Tuple:
		for _, x := range v {
			forget(x)
		}
	}
}

func (in *interp) global(g *ssa.Global) Val {
	o := in.mem[g]
	if o == nil {
		if g.Pkg != in.pkg {
			return nil
		}
		o = &obj{v: in.zero(elemOf(g.Type()))}
		if g.Name() == "init$guard" {
			o.v = constant.MakeBool(false)
		}
		in.mem[g] = o
	}
	return Ptr{O: o}
}

type frame struct {
	vals map[ssa.Value]Val
	free []Val
	fn   *ssa.Function
}

func (in *interp) call(fn *ssa.Function, args, free []Val) Val {
	if in.depth++; in.depth > 100 {
		panic(giveUp{})
	}
	defer func() { in.depth-- }()
	f := &frame{vals: map[ssa.Value]Val{}, fn: fn}
	for i, p := range fn.Params {
		f.vals[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.vals[p] = free[i]
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		var next *ssa.BasicBlock
		phis := map[ssa.Value]Val{}
		for _, i := range b.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range b.Preds {
				if p == prev {
					phis[phi] = in.val(f, phi.Edges[k])
				}
			}
		}
		for k, v := range phis {
			f.vals[k] = v
		}
		for _, i := range b.Instrs {
			if in.steps++; in.steps > maxSteps {
				panic(giveUp{})
			}
			switch i := i.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c, ok := in.val(f, i.Cond).(constant.Value)
				if !ok {
					panic(giveUp{})
				}
				next = b.Succs[1]
				if constant.BoolVal(c) {
					next = b.Succs[0]
				}
			case *ssa.Return:
				var out Tuple
				for _, r := range i.Results {
					out = append(out, in.val(f, r))
				}
				if len(out) == 1 {
					return out[0]
				}
				return out
			case *ssa.Store:
				p, ok := in.val(f, i.Addr).(Ptr)
				if !ok {
					panic(giveUp{})
				}
				p.store(in.val(f, i.Val))
			case *ssa.MapUpdate:
				m, ok := in.val(f, i.Map).(*Map)
				if !ok {
					panic(giveUp{})
				}
				m.set(in.val(f, i.Key), in.val(f, i.Value))
			case ssa.Value:
				f.vals[i] = in.eval(f, i)
			default: // panic, go, defer, send
				panic(giveUp{})
			}
		}
		prev, b = b, next
	}
}

func (m *Map) set(k, v Val) {
	if _, ok := k.(constant.Value); !ok {
		m.Bad = true
		return
	}
	for i := range m.K {
		if equal(m.K[i], k) {
			m.V[i] = v
			return
		}
	}
	m.K, m.V = append(m.K, k), append(m.V, v)
}

func equal(a, b Val) bool {
	x, ok := a.(constant.Value)
	y, ok2 := b.(constant.Value)
	return ok && ok2 && constant.Compare(x, token.EQL, y)
}

func (in *interp) val(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return in.zero(v.Type())
		}
		return in.wrap(v.Value, v.Type())
	case *ssa.Global:
		return in.global(v)
	case *ssa.Function, *ssa.Builtin:
		return nil
	}
	return f.vals[v]
}

// wrap reduces a number to the range of its type.
func (in *interp) wrap(c constant.Value, t types.Type) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		c = constant.ToInt(c)
		if c.Kind() != constant.Int {
			return nil
		}
		bits := uint(in.sizes.Sizeof(b) * 8)
		mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
		mask := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
		c = constant.BinaryOp(c, token.AND, mask)
		half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
		if b.Info()&types.IsUnsigned == 0 && constant.Compare(c, token.GEQ, half) {
			c = constant.BinaryOp(c, token.SUB, mod)
		}
		return c
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c))
		if b.Kind() == types.Float32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c))
			f = float64(f32)
		}
		return constant.MakeFloat64(f)
	case b.Info()&(types.IsBoolean|types.IsString) != 0:
		return c
	}
	return nil
}

func toInt(v Val) (int, bool) {
	c, ok := v.(constant.Value)
	if !ok {
		return 0, false
	}
	n, ok := constant.Int64Val(constant.ToInt(c))
	return int(n), ok
}

func (in *interp) eval(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Alloc:
		return Ptr{O: &obj{v: in.zero(elemOf(v.Type()))}}
	case *ssa.MakeMap:
		return &Map{}
	case *ssa.MakeSlice:
		n, ok := toInt(in.val(f, v.Len))
		if !ok || n < 0 || n > maxElems {
			return nil
		}
		el := v.Type().Underlying().(*types.Slice).Elem()
		return Slice{O: &obj{v: in.zero(types.NewArray(el, int64(n)))}, Len: n}
	case *ssa.UnOp:
		x := in.val(f, v.X)
		if v.Op == token.MUL {
			if p, ok := x.(Ptr); ok {
				return p.load()
			}
			return nil
		}
		c, ok := x.(constant.Value)
		if !ok {
			return nil
		}
		switch v.Op {
		case token.SUB, token.XOR, token.NOT:
			return in.wrap(constant.UnaryOp(v.Op, c, 0), v.Type())
		}
		return nil
	case *ssa.BinOp:
		return in.binop(v, in.val(f, v.X), in.val(f, v.Y))
	case *ssa.Convert:
		c, ok := in.val(f, v.X).(constant.Value)
		if !ok {
			return nil
		}
		from, ok1 := v.X.Type().Underlying().(*types.Basic)
		to, ok2 := v.Type().Underlying().(*types.Basic)
		if !ok1 || !ok2 || to.Info()&types.IsNumeric == 0 || from.Info()&types.IsNumeric == 0 {
			if ok1 && ok2 && from.Info()&types.IsString != 0 && to.Info()&types.IsString != 0 {
				return c
			}
			return nil
		}
		if from.Info()&types.IsFloat != 0 && to.Info()&types.IsInteger != 0 {
			return nil
		}
		return in.wrap(c, v.Type())
	case *ssa.ChangeType:
		return in.val(f, v.X)
	case *ssa.IndexAddr:
		i, ok := toInt(in.val(f, v.Index))
		if !ok {
			panic(giveUp{})
		}
		switch x := in.val(f, v.X).(type) {
		case Ptr:
			return x.at(i)
		case Slice:
			if i < 0 || i >= x.Len {
				panic(giveUp{})
			}
			return Ptr{x.O, x.Path}.at(x.Off + i)
		}
		return nil
	case *ssa.FieldAddr:
		if p, ok := in.val(f, v.X).(Ptr); ok {
			return p.at(v.Field)
		}
		return nil
	case *ssa.Index:
		i, ok := toInt(in.val(f, v.Index))
		if !ok || i < 0 {
			return nil
		}
		switch x := in.val(f, v.X).(type) {
		case Agg:
			if i < len(x) {
				return clone(x[i])
			}
		case constant.Value:
			if s := constant.StringVal(x); i < len(s) {
				return constant.MakeInt64(int64(s[i]))
			}
		}
		return nil
	case *ssa.Field:
		if a, ok := in.val(f, v.X).(Agg); ok {
			return clone(a[v.Field])
		}
		return nil
	case *ssa.Lookup:
		k := in.val(f, v.Index)
		switch x := in.val(f, v.X).(type) {
		case constant.Value:
			i, ok := toInt(k)
			if s := constant.StringVal(x); ok && i >= 0 && i < len(s) {
				return constant.MakeInt64(int64(s[i]))
			}
		case *Map:
			if _, ok := k.(constant.Value); !ok || x.Bad {
				return nil
			}
			r, found := in.zero(v.X.Type().Underlying().(*types.Map).Elem()), false
			for i := range x.K {
				if equal(x.K[i], k) {
					r, found = x.V[i], true
				}
			}
			if v.CommaOk {
				return Tuple{r, constant.MakeBool(found)}
			}
			return r
		}
		return nil
	case *ssa.Slice:
		lo, hi := 0, -1
		if v.Low != nil {
			n, ok := toInt(in.val(f, v.Low))
			if !ok {
				return nil
			}
			lo = n
		}
		if v.High != nil {
			n, ok := toInt(in.val(f, v.High))
			if !ok {
				return nil
			}
			hi = n
		}
		switch x := in.val(f, v.X).(type) {
		case Ptr:
			n := -1
			if a, ok := elemOf(v.X.Type()).Underlying().(*types.Array); ok {
				n = int(a.Len())
			}
			if hi < 0 {
				hi = n
			}
			return Slice{x.O, x.Path, lo, hi - lo}
		case Slice:
			if hi < 0 {
				hi = x.Len
			}
			return Slice{x.O, x.Path, x.Off + lo, hi - lo}
		case constant.Value:
			s := constant.StringVal(x)
			if hi < 0 {
				hi = len(s)
			}
			if lo <= hi && hi <= len(s) {
				return constant.MakeString(s[lo:hi])
			}
		}
		return nil
	case *ssa.Extract:
		if t, ok := in.val(f, v.Tuple).(Tuple); ok {
			return t[v.Index]
		}
		return nil
	case *ssa.Range:
		return in.rangeOver(in.val(f, v.X))
	case *ssa.Next:
		it, ok := in.val(f, v.Iter).(*iter)
		if !ok {
			panic(giveUp{})
		}
		return it.next()
	case *ssa.Call:
		return in.callInstr(f, v)
	}
	for _, op := range v.(ssa.Instruction).Operands(nil) {
		if *op != nil {
			forget(in.val(f, *op))
		}
	}
	return nil
}

type iter struct {
	s []struct{ k, v Val }
	i int
}

func (it *iter) next() Val {
	if it.i >= len(it.s) {
		return Tuple{constant.MakeBool(false), nil, nil}
	}
	e := it.s[it.i]
	it.i++
	return Tuple{constant.MakeBool(true), e.k, e.v}
}

// rangeOver goes through a string. The order of the entries of a map isn't known.
func (in *interp) rangeOver(x Val) Val {
	c, ok := x.(constant.Value)
	if !ok || c.Kind() != constant.String {
		return nil
	}
	it := &iter{}
	for i, r := range constant.StringVal(c) {
		it.s = append(it.s, struct{ k, v Val }{constant.MakeInt64(int64(i)), constant.MakeInt64(int64(r))})
	}
	return it
}

func (in *interp) callInstr(f *frame, v *ssa.Call) Val {
	var args []Val
	for _, a := range v.Call.Args {
		args = append(args, in.val(f, a))
	}
	if b, ok := v.Call.Value.(*ssa.Builtin); ok {
		return in.builtin(b.Name(), args, v)
	}
	if fn := v.Call.StaticCallee(); fn != nil && !v.Call.IsInvoke() {
		if fn.Pkg != in.pkg && fn.Name() == "init" && len(args) == 0 {
			return nil // the initialization of another package
		}
		var free []Val
		if mc, ok := v.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, in.val(f, b))
			}
		}
		own := fn.Pkg == in.pkg || fn.Pkg == nil && fn.Origin() != nil && fn.Origin().Pkg == in.pkg
		if own && len(fn.Blocks) > 0 {
			return in.call(fn, args, free)
		}
	}
	for _, a := range args {
		forget(a)
	}
	return nil
}

func (in *interp) builtin(name string, args []Val, v *ssa.Call) Val {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case constant.Value:
			if x.Kind() == constant.String {
				return constant.MakeInt64(int64(len(constant.StringVal(x))))
			}
		case Slice:
			if name == "len" {
				return constant.MakeInt64(int64(x.Len))
			}
		case *Map:
			if !x.Bad {
				return constant.MakeInt64(int64(len(x.K)))
			}
		case Agg:
			return constant.MakeInt64(int64(len(x)))
		}
		return nil
	}
	for _, a := range args {
		forget(a)
	}
	return nil
}

func (in *interp) binop(v *ssa.BinOp, x, y Val) Val {
	a, ok := x.(constant.Value)
	b, ok2 := y.(constant.Value)
	if !ok || !ok2 || a.Kind() == constant.Unknown || b.Kind() == constant.Unknown {
		return nil
	}
	switch v.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.MakeBool(constant.Compare(a, v.Op, b))
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(constant.ToInt(b))
		if !ok || n > 1<<10 {
			return nil
		}
		return in.wrap(constant.Shift(constant.ToInt(a), v.Op, uint(n)), v.Type())
	case token.QUO, token.REM:
		if constant.Sign(b) == 0 {
			panic(giveUp{})
		}
		if t, ok := v.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
			op := v.Op
			if op == token.QUO {
				op = token.QUO_ASSIGN // division of integers
			}
			return in.wrap(constant.BinaryOp(a, op, b), v.Type())
		}
		return in.wrap(constant.BinaryOp(a, v.Op, b), v.Type())
	case token.AND_NOT, token.AND, token.OR, token.XOR, token.ADD, token.SUB, token.MUL:
		return in.wrap(constant.BinaryOp(a, v.Op, b), v.Type())
	}
	return nil
}
