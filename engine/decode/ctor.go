package decode

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
	"jscheck/load"
)

// Ctor validates the functions that make decoders: they compile the type the
// decoder is for and hand the frames, the options and the results on.
type Ctor struct {
	*Compiler
	destT   types.Type
	initial map[*ssa.Global]*initialValue
}

// initialValue is what a package variable of a pointer type points to.
type initialValue struct {
	alloc  *ssa.Alloc
	fields map[int]ssa.Value // that are set
	known  bool              // nothing else sets it
}

// NewCtor resolves the functions.
func NewCtor(p *load.Program, bytes bool) *Ctor {
	c := &Ctor{Compiler: NewCompiler(p, bytes)}
	c.E.Monotone = false
	call := c.E.Call
	c.E.Call = func(e *flow.Eng, s *flow.State, name string, fn *ssa.Function, args []flow.Val, res types.Type, pos token.Pos) (flow.Val, bool) {
		switch {
		case fn == nil:
		case c.same(fn):
			r := c.tuple("compiled", res)
			event(s, compileEvent, append([]flow.Val{}, args...), r, pos)
			return r, true
		case strings.HasSuffix(load.PkgPath(fn), "jscan/v2") && fnName(fn) == "NewTokenizer":
			t := e.Sym("new tokenizer", res)
			t.NonZero = true
			event(s, "NewTokenizer", args, flow.A(t), pos)
			return flow.A(t), true
		case fn == c.Decode || fn.Origin() != nil && fn.Origin() == c.Decode.Origin():
			r := c.tuple("decoded", res)
			event(s, "Decode", append([]flow.Val{}, args...), r, pos)
			return r, true
		}
		return call(e, s, name, fn, args, res, pos)
	}
	c.findInitial()
	return c
}

// Resolve finds the functions of the decoder.
func (c *Ctor) Resolve() { c.resolveParsers() }

func (c *Ctor) tuple(name string, t types.Type) flow.Tuple {
	var r flow.Tuple
	for i := 0; i < t.(*types.Tuple).Len(); i++ {
		r.F = append(r.F, c.E.SymVal(name, t.(*types.Tuple).At(i).Type()))
	}
	return r
}

// findInitial finds the values package variables point to.
func (c *Ctor) findInitial() {
	c.initial = map[*ssa.Global]*initialValue{}
	init := c.P.Root.Func("init")
	for _, fn := range c.P.AllFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if c.initial[g] != nil {
					c.initial[g].known = false
					continue
				}
				v := &initialValue{fields: map[int]ssa.Value{}}
				c.initial[g] = v
				a, ok := st.Val.(*ssa.Alloc)
				if !ok || fn != init {
					continue
				}
				v.alloc, v.known = a, true
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.FieldAddr:
						for _, u := range *r.Referrers() {
							if x, ok := u.(*ssa.Store); ok && x.Addr == r {
								v.fields[r.Field] = x.Val
							} else {
								v.known = false
							}
						}
					case *ssa.Store:
						if r.Addr != st.Addr {
							v.known = false
						}
					case *ssa.DebugRef:
					default:
						v.known = false
					}
				}
			}
		}
	}
}

// Check validates both functions.
func (c *Ctor) Check(rep *Rep) {
	for _, name := range []string{"NewDecoder", "Unmarshal"} {
		var fn *ssa.Function
		for _, x := range c.P.Instances(c.P.ModPath, name) {
			if len(x.TypeArgs()) == 2 && types.Identical(x.TypeArgs()[0], c.Decode.TypeArgs()[0]) {
				fn = x
			}
		}
		if fn == nil {
			bail("the instance of %s isn't found", name)
		}
		c.destT = fn.TypeArgs()[1]
		args := make([]flow.Val, len(fn.Params))
		for i, p := range fn.Params {
			args[i] = c.E.SymVal(p.Name(), p.Type())
		}
		start := c.E.Start(fn, args)
		s0 := start.Clone()
		c.head = s0
		outs := c.E.Explore(start)
		c.check("type", name, s0, outs, rep, func(v *V) {
			if v.o.Kind != flow.OReturn {
				v.unsure("analysis", "unexpected end")
				return
			}
			x := &ctorV{V: v, c: c, args: args, ents: v.ents}
			if name == "NewDecoder" {
				x.newDecoder()
			} else {
				x.unmarshal()
			}
		})
	}
}

type ctorV struct {
	*V
	c    *Ctor
	args []flow.Val
	ents []*flow.Entry
}

func (x *ctorV) events(name string) []*flow.Entry {
	var out []*flow.Entry
	for _, en := range x.ents {
		if en.Kind == flow.EEvent && en.Ev.Name == name {
			out = append(out, en)
		}
	}
	return out
}

// compiled expects that the type was compiled once with the options and returns
// the frames; errors are returned.
func (x *ctorV) compiled(opt func(got flow.Val) int, result int) (flow.Sl, bool) {
	c := x.c
	evs := x.events(compileEvent)
	x.ok("wiring")
	if len(evs) != 1 {
		x.fail("wiring", "the type is compiled %d times", len(evs))
		return flow.Sl{}, false
	}
	a := evs[0].Ev.Args
	x.must("wiring", x.same(lin(a[c.iStack].(flow.Sl).Len), flow.C(0)), "the type is appended to %s frames", flow.Show(a[c.iStack].(flow.Sl).Len))
	x.must("wiring", x.same(a[c.iType], c.typeTerm(c.destT)), "the type compiled is %s", flow.Show(a[c.iType]))
	x.must("wiring", opt(a[c.iOp]), "the options the type is compiled with are %s", flow.Show(a[c.iOp]))
	err := resErr(evs[0])
	if x.req(flow.Cond{Op: flow.NE, L: err.TW}) {
		x.must("wiring", x.same(x.o.Ret[result], err), "the error of the type is returned as %s", flow.Show(x.o.Ret[result]))
		return flow.Sl{}, false
	}
	return resSl(evs[0]), true
}

// decoder checks the fields of a decoder.
func (x *ctorV) decoder(s *flow.State, p flow.Lin, tok flow.Val, frames flow.Sl) {
	c := x.c
	load := func(f string) flow.Val {
		return c.E.Load(s, p.AddC(c.Off(c.Dec, f)), fieldType(c.Dec, f))
	}
	x.must("wiring", x.same(load("tokenizer"), tok), "the tokenizer of the decoder is %s", flow.Show(load("tokenizer")))
	x.must("wiring", x.same(load("stackExp"), frames), "the frames of the decoder are %s", flow.Show(load("stackExp")))
	x.must("wiring", x.same(load("suspended").(flow.Sl).Len, flow.C(0)), "a new decoder has suspended frames")
	for i := 0; i < c.Dec.NumFields(); i++ {
		f := c.Dec.Field(i)
		if _, ok := f.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		got := load(f.Name())
		want, ok := c.funcs[c.Off(c.Dec, f.Name())]
		x.ok("wiring")
		g, isFn := got.(flow.Fn)
		switch {
		case isFn && ok && g.Fn == want.Fn:
		case isFn:
			x.unsure("wiring", "the function %s isn't that of the method init", f.Name())
		default:
			if l, ok := got.(flow.Lin); ok && x.s.F.Norm(l).IsC() {
				x.fail("wiring", "the function %s isn't set", f.Name())
			} else {
				x.unsure("wiring", "the function %s isn't known", f.Name())
			}
		}
	}
}

func (x *ctorV) newDecoder() {
	// The parameters by their types.
	var tok, opt flow.Val
	for i, p := range x.c.paramsOf("NewDecoder") {
		if strings.Contains(p.String(), "InitOptions") {
			opt = x.args[i]
		} else {
			tok = x.args[i]
		}
	}
	frames, ok := x.compiled(func(got flow.Val) int {
		if x.req(eq(lin(opt), flow.C(0))) {
			return 1
		}
		return x.same(got, opt)
	}, 1)
	if !ok {
		return
	}
	e, _ := x.o.Ret[1].(flow.Iface)
	x.must("wiring", x.decide(eq(e.TW, flow.C(0))), "an error is returned although there's none")
	p, ok := x.o.Ret[0].(flow.Lin)
	if !ok || p.IsC() {
		x.ok("wiring")
		x.fail("wiring", "no decoder is returned")
		return
	}
	x.decoder(x.s, p, tok, frames)
}

func (c *Ctor) paramsOf(name string) []types.Type {
	var out []types.Type
	fn := c.P.Instances(c.P.ModPath, name)[0]
	for _, p := range fn.Params {
		out = append(out, p.Type())
	}
	return out
}

// zeroOptions decides whether a value points to options that are all false.
func (x *ctorV) zeroOptions(s *flow.State, v flow.Val) int {
	l, ok := v.(flow.Lin)
	if !ok || len(l.T) != 1 || l.C != 0 {
		return 0
	}
	t := l.T[0].A
	if t.Op == "load" {
		b := flow.Base(t.Addr)
		if b == nil || b.G == nil || !t.Addr.Eq(flow.A(b)) {
			return 0
		}
		iv := x.c.initial[b.G]
		if iv == nil || !iv.known {
			return 0
		}
		for _, f := range iv.fields {
			k, ok := f.(*ssa.Const)
			if !ok {
				return 0
			}
			if k.Value != nil && k.Value.String() != "false" {
				return -1
			}
		}
		return 1
	}
	pt, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return 0
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok || t.Op != "alloc" {
		return 0
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		got := x.c.E.Load(s, l.AddC(x.c.Off(st, f.Name())), f.Type())
		if r := x.same(got, flow.Cond{Op: flow.False}); r != 1 {
			return r
		}
	}
	return 1
}

func (x *ctorV) unmarshal() {
	var dest, in flow.Val
	for i, a := range x.args {
		if _, ok := x.c.paramsOf("Unmarshal")[i].Underlying().(*types.Pointer); ok {
			dest = a
		} else {
			in = a
		}
	}
	ret := x.o.Ret[0]
	dec := x.events("Decode")
	if x.req(eq(lin(dest), flow.C(0))) && len(dec) == 0 {
		x.must("wiring", x.same(ret, x.global("ErrNilDest")), "the error is %s if the destination is nil", flow.Show(ret))
		return
	}
	frames, ok := x.compiled(func(got flow.Val) int {
		if len(x.events(compileEvent)) != 1 {
			return 0
		}
		return x.zeroOptions(x.s.Before(x.events(compileEvent)[0]), got)
	}, 0)
	if !ok {
		return
	}
	x.ok("wiring")
	if len(dec) != 1 {
		x.fail("wiring", "the input is decoded %d times", len(dec))
		return
	}
	a := dec[0].Ev.Args
	at := x.s.Before(dec[0])
	x.must("wiring", x.same(x.c.E.ToStr(a[1]), x.c.E.ToStr(in)), "the input decoded is %s", flow.Show(a[1]))
	x.must("wiring", x.same(a[2], dest), "the destination is %s", flow.Show(a[2]))
	x.must("wiring", x.zeroOptions(at, a[3]), "the options of the decoder are %s", flow.Show(a[3]))
	toks := x.events("NewTokenizer")
	if len(toks) == 0 {
		x.unsure("wiring", "no tokenizer is made")
		return
	}
	x.decoder(at, lin(a[0]), toks[len(toks)-1].Ev.Res, frames)
	err := dec[0].Ev.Res.(flow.Tuple).F[1].(flow.Iface)
	if x.req(eq(err.TW, flow.C(0))) {
		r, _ := ret.(flow.Iface)
		x.must("wiring", x.decide(eq(r.TW, flow.C(0))), "%s is returned without an error", flow.Show(ret))
		return
	}
	if x.decide(eq(err.TW, x.global("ErrStringTagOptionOnUnsupportedType").(flow.Iface).TW)) == 1 {
		return // never an error of the decoder
	}
	x.must("wiring", x.same(ret, err), "the error of the decoder is returned as %s", flow.Show(ret))
}
