package decode

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
)

// CheckLife validates what happens before and after the main loop.
func (m *Model) CheckLife(rep *Rep) {
	m.checkStart(rep)
	m.checkEnd(rep)
	m.checkReturns(rep)
}

// check validates the outcomes from a state with a specification.
func (m *Model) check(k, e string, start *flow.State, outs []*flow.Outcome, rep *Rep, run func(v *V)) {
	rep.Pairs++
	for _, o := range outs {
		rep.Outcomes++
		m.checkOutcome(k, e, o, start, rep, func(v *V) {
			switch o.Kind {
			case flow.OPanic:
				v.ok("panic")
				v.fail("panic", "panics: %s", o.Msg)
			case flow.OStop:
				v.unsure("analysis", "%s: %s", o.Rule, o.Msg)
			default:
				tryDone(func() { run(v) })
			}
		})
	}
}

// checkStart validates the state the main loop begins with.
func (m *Model) checkStart(rep *Rep) {
	o := m.headIn
	m.check("Decode", "begin", o.S, []*flow.Outcome{{Kind: flow.OReturn, S: o.S, Pos: o.Pos, Fn: o.Fn}}, rep, func(v *V) {
		init := func(sym *flow.Term, what string) {
			for p, x := range m.headAt.Phis {
				if y, ok := x.(flow.Lin); ok && len(y.T) == 1 && y.T[0].A == sym {
					v.must("begin", v.same(o.Next[p], flow.C(0)), "the first %s is %s", what, flow.Show(o.Next[p]))
					return
				}
			}
			for a := range m.Cells {
				el := a.Typ.Underlying().(*types.Pointer).Elem()
				if x, ok := m.E.Load(m.head, flow.A(a), el).(flow.Lin); ok && len(x.T) == 1 && x.T[0].A == sym {
					x := m.E.Load(o.S, flow.A(a), el)
					v.must("begin", v.same(x, flow.C(0)), "the first %s is %s", what, flow.Show(x))
					return
				}
			}
			v.unsure("begin", "the %s isn't found", what)
		}
		if m.tiSym == nil || m.siSym == nil {
			v.unsure("begin", "the indexes aren't found")
			return
		}
		init(m.tiSym, "token")
		init(m.siSym, "frame")
		d := m.fr(o.S, flow.C(0), "Dest")
		v.must("begin", v.same(d, flow.A(m.T)), "the destination is %s", flow.Show(d))
		off := m.fr(o.S, flow.C(0), "Offset")
		v.must("begin", v.same(off, m.fr(&flow.State{F: o.S.F}, flow.C(0), "Offset")), "the offset of the destination is %s", flow.Show(off))
		x := m.atTokenizer.S.Log.Ev.Args
		v.must("begin", v.same(m.E.ToStr(x[1]), m.E.ToStr(m.S)), "the tokens are those of %s", flow.Show(x[1]))
	})
}

// checkEnd validates that the callback succeeds after the last token.
func (m *Model) checkEnd(rep *Rep) {
	s := m.entry()
	s.F.Assume(flow.Cond{Op: flow.EQ, L: m.Tokens.Len.Add(m.TI, -1)})
	m.check("Decode", "end", m.head, m.E.Explore(s), rep, func(v *V) {
		v.ok("end")
		if v.o.Kind != flow.OReturn || len(v.o.Ret) != 1 || v.same(v.o.Ret[0], flow.Cond{Op: flow.False}) != 1 {
			v.fail("end", "the end of the input isn't accepted")
			return
		}
		for _, en := range v.effects() {
			v.failAt(en, "end", "an effect at the end of the input")
		}
	})
}

// written returns the captured variables the callback may write to.
func (m *Model) written() []flow.Lin {
	var out []flow.Lin
	w := map[*ssa.FreeVar]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fv, ok := st.Addr.(*ssa.FreeVar); ok {
						w[fv] = true
					}
				}
			}
		}
	}
	visit(m.callback.Fn)
	for i, fv := range m.callback.Free {
		l, ok := fv.(flow.Lin)
		if ok && len(l.T) == 1 && l.T[0].A.Op == "alloc" && (w[m.callback.Fn.FreeVars[i]] || l.Eq(m.errIdx) || l.Eq(m.errVal)) {
			out = append(out, l)
		}
	}
	return out
}

// afterTokenizer makes everything the callback may change unknown.
func (m *Model) afterTokenizer(s *flow.State) {
	m.havoc(s, func(a flow.Lin, n int64) bool { return m.dynamic(a, n) || isUser(a, n) })
	for _, l := range m.written() {
		el := l.T[0].A.Typ.Underlying().(*types.Pointer).Elem()
		m.E.Store(s, l, el, m.E.SymVal("after:"+m.Cells[l.T[0].A], el), 0)
	}
	sus := fieldType(m.Dec, "suspended")
	m.E.Store(s, flow.A(m.D).AddC(m.Off(m.Dec, "suspended")), sus, m.E.SymVal("suspended", sus), 0)
}

// checkReturns validates the results of Decode and the state it leaves behind.
func (m *Model) checkReturns(rep *Rep) {
	var errTok flow.Val
	var errT types.Type
	m.after = func(s *flow.State, args []flow.Val, res types.Type) flow.Val {
		m.afterTokenizer(s)
		errT = res
		errTok = m.E.SymVal("errTok", res)
		return errTok
	}
	defer func() { m.after = nil }()
	start := m.E.Start(m.Decode, []flow.Val{flow.A(m.D), m.S, flow.A(m.T), flow.A(m.Opt)})
	start0 := start.Clone()
	outs := m.E.Explore(start)
	m.check("Decode", "return", start0, outs, rep, func(v *V) { m.returns(v, errTok, errT) })
	m.check("Decode", "cleanup", start0, outs, rep, func(v *V) {
		// The result alone decides whether the tokenizer was called.
		for _, en := range v.ents {
			if en.Kind == flow.EEvent && en.Ev.Name == "tokenize" {
				v.clean()
				return
			}
		}
	})
	// A panic of the user's code.
	at := m.atTokenizer.S.Clone()
	m.afterTokenizer(at)
	uw, ok := m.E.Unwind(at)
	if !ok {
		uw = []*flow.Outcome{{Kind: flow.OReturn, S: at, Pos: m.atTokenizer.Pos, Fn: m.atTokenizer.Fn}}
	}
	m.check("Decode", "panic", start0, uw, rep, func(v *V) { v.clean() })
}

func (m *Model) jscanConst(name string) (int64, bool) {
	for _, imp := range m.P.Root.Pkg.Imports() {
		if strings.HasSuffix(imp.Path(), "jscan/v2") {
			if c, ok := imp.Scope().Lookup(name).(*types.Const); ok {
				return constant.Int64Val(c.Val())
			}
		}
	}
	return 0, false
}

func structField(t types.Type, v flow.Val, name string) flow.Val {
	st := t.Underlying().(*types.Struct)
	a, ok := v.(flow.Agg)
	if !ok {
		bail("the tokenizer's error isn't a struct")
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return a.F[i]
		}
	}
	bail("field %s not found", name)
	return nil
}

func (m *Model) returns(v *V, errTok flow.Val, errT types.Type) {
	ret := v.o.Ret
	if len(ret) != 2 {
		v.unsure("return", "unexpected results")
		return
	}
	var tok *flow.Entry
	for _, en := range v.ents {
		if en.Kind == flow.EEvent && en.Ev.Name == "tokenize" {
			tok = en
		}
	}
	v.ok("nildest")
	if v.req(eq(flow.A(m.T), flow.C(0))) {
		if tok != nil {
			v.fail("nildest", "the input is decoded although the destination is nil")
			return
		}
		v.must("nildest", v.same(ret[1], v.global("ErrNilDest")), "the error is %s if the destination is nil", flow.Show(ret[1]))
		v.must("nildest", v.same(ret[0], flow.C(0)), "the index of the error is %s if the destination is nil", flow.Show(ret[0]))
		for _, en := range v.ents {
			if en.Kind == flow.EStore && v.region(en) == "user" {
				v.failAt(en, "nildest", "memory is written to although the destination is nil")
			}
		}
		return
	}
	if tok == nil {
		v.fail("return", "returns without decoding the input")
		return
	}
	v.ok("return")
	code := lin(structField(errT, errTok, "Code"))
	cb, ok := m.jscanConst("ErrorCodeCallback")
	if !ok {
		v.unsure("return", "the code of the tokenizer isn't found")
		return
	}
	cell := func(l flow.Lin) flow.Val {
		el := l.T[0].A.Typ.Underlying().(*types.Pointer).Elem()
		return m.E.SymVal("after:"+m.Cells[l.T[0].A], el)
	}
	switch {
	case v.req(eq(code, flow.C(cb))):
		v.must("return", v.same(ret[0], cell(m.errIdx)), "the index of the decoder's error is %s", flow.Show(ret[0]))
		v.must("return", v.same(ret[1], cell(m.errVal)), "the decoder's error is returned as %s", flow.Show(ret[1]))
	case !v.req(eq(code, flow.C(0))):
		v.must("return", v.same(ret[0], structField(errT, errTok, "Index")), "the index of the tokenizer's error is %s", flow.Show(ret[0]))
		i, ok := ret[1].(flow.Iface)
		r := -1
		if ok && i.T != nil && types.Identical(i.T, errT) {
			r = v.same(i.V, errTok)
		}
		v.must("return", r, "the tokenizer's error is returned as %s", flow.Show(ret[1]))
	default:
		v.must("return", v.same(ret[0], flow.C(-1)), "the index is %s without an error", flow.Show(ret[0]))
		i, ok := ret[1].(flow.Iface)
		r := -1
		if ok {
			r = v.decide(eq(i.TW, flow.C(0)))
		}
		v.must("return", r, "%s is returned without an error", flow.Show(ret[1]))
	}
	// What's written afterwards is the value decoded.
	seen := false
	for _, en := range v.ents {
		if en == tok {
			seen = true
		}
		if !seen || en.Kind != flow.EStore || !en.Pos.IsValid() || v.region(en) != "user" {
			continue
		}
		d := v.s.F.Norm(en.Addr.Add(flow.A(m.T), -1))
		v.ok("return")
		if !d.IsC() {
			v.failAt(en, "return", "%s is written to at last", flow.Show(en.Addr))
			continue
		}
		before := v.s.Before(en)
		dest := lin(m.fr(before, flow.C(0), "Dest"))
		a := m.E.LoadScalar(before, dest.AddC(d.C), en.Size, en.Typ)
		b := m.E.LoadScalar(before, en.Addr, en.Size, en.Typ)
		if !v.same1(en.Val, a) && !v.same1(en.Val, b) {
			v.failAt(en, "return", "the destination is set to %s at last", flow.Show(en.Val))
		}
	}
}

// sweep tells whether a loop has an effect on each of n consecutive elements:
// f decides whether an iteration has it on the i-th one.
func (v *V) sweep(en *flow.Entry, n flow.Lin, f func(w *V, i flow.Lin) bool) (all, every bool) {
	r := en.Loop
	for _, i := range []flow.Lin{flow.A(r.N), n.AddC(-1).Add(flow.A(r.N), -1)} {
		good := len(r.Backs) > 0
		for _, b := range r.Backs {
			v.each(en, b, func(w *V) { good = good && f(w, i) })
		}
		if good {
			return v.decide(ge(flow.A(r.N), n)) == 1, true
		}
	}
	return false, false
}

// first is the state at the begin of the entries.
func (v *V) first() *flow.State {
	if len(v.ents) == 0 {
		return v.s
	}
	return v.s.Before(v.ents[0])
}

func (v *V) numFrames() flow.Lin {
	return v.m.E.Load(v.s0, flow.A(v.m.D).AddC(v.m.Off(v.m.Dec, "stackExp")), fieldType(v.m.Dec, "stackExp")).(flow.Sl).Len
}

// clean expects that the decoder is as good as new.
func (v *V) clean() {
	m := v.m
	n := v.numFrames()
	sus := m.E.Load(v.s, flow.A(m.D).AddC(m.Off(m.Dec, "suspended")), fieldType(m.Dec, "suspended")).(flow.Sl)
	v.must("cleanup", v.same(sus.Len, flow.C(0)), "states of frames remain suspended: %s", flow.Show(sus.Len))
	v.suspendedForgotten(sus)
	var loops []*flow.Entry
	for _, en := range v.ents {
		if en.Kind == flow.ELoop {
			loops = append(loops, en)
		}
	}
	rec := func(w *V, i flow.Lin) int {
		old := m.fr(w.first(), i, "RecursionStack").(flow.Sl)
		if !w.req(ge(old.Len, flow.C(1))) {
			return 1
		}
		now := m.fr(w.s, i, "RecursionStack").(flow.Sl)
		if w.decide(eq(now.Len, flow.C(0))) != 1 {
			return 0
		}
		off := lin(m.fr(w.s, i, "Offset"))
		if len(off.T) != 1 || off.C != 0 || off.T[0].A.Op != "load" || !w.same1(off.T[0].A.Addr, old.Ptr.AddC(m.Off(m.Rec, "Offset"))) {
			return -1
		}
		return 1
	}
	dest, recur := false, false
	for _, en := range loops {
		all, every := v.sweep(en, n, func(w *V, i flow.Lin) bool { return w.same1(m.fr(w.s, i, "Dest"), flow.C(0)) })
		dest = dest || all
		if every && !all {
			v.fail("cleanup", "not every frame's destination is reset")
			return
		}
		bad := false
		all, every = v.sweep(en, n, func(w *V, i flow.Lin) bool {
			switch rec(w, i) {
			case -1:
				bad = true
				return true
			case 0:
				return false
			}
			return true
		})
		if every && bad {
			v.ok("cleanup")
			v.fail("cleanup", "the offset of a recursive frame isn't restored")
			return
		}
		if every && !all {
			v.ok("cleanup")
			v.fail("cleanup", "not every frame's recursion is reset")
			return
		}
		if all && !recur {
			kept := 1
			v.sweep(en, n, func(w *V, i flow.Lin) bool {
				kept = min(kept, w.recursionForgotten(i))
				return true
			})
			v.forgotten(kept, "the destinations of the recursions aren't reset")
		}
		recur = recur || all
	}
	for _, x := range []struct {
		ok   bool
		what string
	}{{dest, "the destinations of the frames aren't reset"}, {recur, "the recursions of the frames aren't reset"}} {
		v.ok("cleanup")
		if x.ok {
			continue
		}
		if v.otherLoops(loops) {
			v.unsure("cleanup", "%s by a known loop", x.what)
		} else {
			v.fail("cleanup", "%s", x.what)
		}
	}
}

// otherLoops tells whether loops make effects that aren't understood: those
// that don't address a frame by a regular index.
func (v *V) otherLoops(loops []*flow.Entry) bool {
	for _, en := range loops {
		for _, c := range en.Loop.Comps {
			if c.Kind == flow.Gen && c.Cell == nil {
				return true
			}
		}
	}
	return false
}

// CheckRecursion validates the methods that manage recursive types.
func (m *Model) CheckRecursion(rep *Rep) {
	n := 0
	ms := m.P.Prog.MethodSets.MethodSet(types.NewPointer(m.DecT))
	for i := 0; i < ms.Len(); i++ {
		fn := m.P.Prog.MethodValue(ms.At(i))
		k := m.recursionMethod(fn)
		if k == "" {
			continue
		}
		n++
		arg := m.E.SymVal("frame", fn.Params[1].Type())
		start := m.E.Start(fn, []flow.Val{flow.A(m.D), arg})
		if l, ok := arg.(flow.Lin); ok {
			start.F.Assume(ge(l, flow.C(0)))
		}
		start0 := start.Clone()
		m.check("recursion", k, start0, m.E.Explore(start), rep, func(v *V) {
			switch k {
			case "enter":
				v.enterBody(lin(arg))
			case "leave":
				v.leaveBody(lin(arg))
			case "in":
				v.inBody(lin(arg))
			}
		})
	}
	if n != 3 {
		rep.Findings = append(rep.Findings, Finding{Cat: "recursion", K: "recursion", E: "methods", Msg: fmt.Sprintf("%d methods found", n), Undecided: true})
	}
}

func (v *V) suspended(s *flow.State) flow.Sl {
	m := v.m
	return m.E.Load(s, flow.A(m.D).AddC(m.Off(m.Dec, "suspended")), fieldType(m.Dec, "suspended")).(flow.Sl)
}

func (m *Model) suspendedStruct() *types.Struct {
	return fieldType(m.Dec, "suspended").Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// storesTo are the stores other than to local variables.
func (v *V) stores() []*flow.Entry {
	var out []*flow.Entry
	for _, en := range v.ents {
		if en.Kind == flow.EStore && en.Pos.IsValid() && v.region(en) != "local" {
			out = append(out, en)
		}
	}
	return out
}

func (v *V) onlyFrames(ens []*flow.Entry, ok func(idx flow.Lin, field string) bool, sus bool) {
	for _, en := range ens {
		v.ok("recursion")
		switch v.region(en) {
		case "frames":
			idx, field, k := v.m.frameOf(v.s.F, en.Addr)
			if !k {
				v.unsure("recursion", "a write to an unknown field of a frame")
			} else if !ok(idx, field) {
				v.failAt(en, "recursion", "%s of frame %s is set to %s", field, flow.Show(idx), flow.Show(en.Val))
			}
		case "decoder":
			off := v.s.F.Norm(en.Addr.Add(flow.A(v.m.D), -1))
			o := v.m.Off(v.m.Dec, "suspended")
			if !off.IsC() || off.C < o || off.C >= o+3*v.m.E.Word() {
				v.failAt(en, "recursion", "a field of the decoder is written to")
			}
		}
	}
}

func (v *V) enterBody(container flow.Lin) {
	m := v.m
	f := lin(m.fr(v.s0, container, "RecurFrame"))
	v.must("recursion", v.same(v.o.Ret[0], f), "the frame entered is %s", flow.Show(v.o.Ret[0]))
	n := v.numFrames().Add(f, -1)
	v.assume(ge(n, flow.C(1)))
	st := m.suspendedStruct()
	v.ok("recursion")
	saved := false
	for _, en := range v.ents {
		if en.Kind != flow.ELoop {
			continue
		}
		if !loopHas(en.Loop, func(x *flow.Entry) bool { return x.Kind == flow.EEvent && x.Ev.Name == "append" }) {
			continue
		}
		bad := ""
		all, every := v.sweep(en, n, func(w *V, i flow.Lin) bool {
			for _, x := range w.ents {
				if x.Kind != flow.EEvent || x.Ev.Name != "append" {
					continue
				}
				a, ok := x.Ev.Args[1].(flow.Agg)
				if !ok || len(a.F) != 1 {
					return false
				}
				e, ok := a.F[0].(flow.Agg)
				if !ok || len(e.F) != st.NumFields() {
					return false
				}
				for _, name := range []string{"Dest", "Offset", "Len"} {
					k := fieldIndex(st, name)
					if k < 0 {
						bad = "the field " + name
						return true
					}
					if !w.same1(e.F[k], m.fr(w.first(), f.Add(i, 1), name)) {
						if w.same1(e.F[k], flow.C(0)) {
							bad = "the field " + name
							return true
						}
						return false
					}
				}
				return w.same1(w.suspended(w.s), flow.Sl{Ptr: lin(x.Ev.Res), Len: w.suspended(w.first()).Len.AddC(1), Cap: w.suspended(w.s).Cap})
			}
			return false
		})
		if every && bad != "" {
			v.fail("recursion", "%s of the frames isn't suspended", bad)
			return
		}
		if every && !all {
			v.fail("recursion", "not all frames from the recursive one on are suspended")
			return
		}
		saved = saved || all
		for _, b := range en.Loop.Backs {
			v.each(en, b, func(w *V) {
				w.onlyFrames(w.stores(), func(flow.Lin, string) bool { return false }, true)
			})
		}
	}
	if !saved && v.plain(v.ents) {
		v.fail("recursion", "the frames from the recursive one on aren't suspended")
		v.done()
	}
	if !saved {
		v.unsure("recursion", "how frames are suspended isn't known")
		v.done()
	}
	// The entry on the stack.
	old := m.fr(v.s0, f, "RecursionStack").(flow.Sl)
	now := m.fr(v.s, f, "RecursionStack").(flow.Sl)
	v.must("recursion", v.same(now.Len, old.Len.AddC(1)), "the recursion has %s entries", flow.Show(now.Len))
	found := false
	for _, en := range v.ents {
		if en.Kind != flow.EEvent || en.Ev.Name != "append" || !v.same1(en.Ev.Res, now.Ptr) {
			continue
		}
		a, ok := en.Ev.Args[1].(flow.Agg)
		if !ok || len(a.F) != 1 {
			continue
		}
		x, ok := a.F[0].(flow.Agg)
		if !ok || len(x.F) != m.Rec.NumFields() {
			continue
		}
		found = true
		want := map[string]flow.Val{
			"Offset":         m.fr(v.s0, f, "Offset"),
			"ContainerFrame": container,
			"Suspended":      v.suspended(v.s).Len,
		}
		for name, y := range want {
			k := fieldIndex(m.Rec, name)
			if k < 0 {
				v.unsure("recursion", "the field %s isn't found", name)
				continue
			}
			v.must("recursion", v.same(x.F[k], y), "%s of the recursion is %s instead of %s", name, flow.Show(x.F[k]), flow.Show(y))
		}
	}
	if !found {
		v.unsure("recursion", "the entry of the recursion isn't known")
	}
	v.must("recursion", v.same(m.fr(v.s, f, "Offset"), flow.C(0)), "the offset of the recursive frame is %s", flow.Show(m.fr(v.s, f, "Offset")))
	v.onlyFrames(v.stores(), func(i flow.Lin, field string) bool {
		return v.same1(i, f) && (strings.HasPrefix(field, "RecursionStack") || field == "Offset")
	}, true)
}

func (v *V) leaveBody(f flow.Lin) {
	m := v.m
	old := m.fr(v.s0, f, "RecursionStack").(flow.Sl)
	sz := m.E.Sizes.Sizeof(m.Rec)
	v.assume(ge(old.Len, flow.C(1)))
	c := m.E.Load(v.s0, old.Ptr.Add(old.Len.AddC(-1), sz).AddC(m.Off(m.Rec, "ContainerFrame")), fieldType(m.Rec, "ContainerFrame"))
	v.must("recursion", v.same(v.o.Ret[0], c), "the container is %s", flow.Show(v.o.Ret[0]))
	now := m.fr(v.s, f, "RecursionStack").(flow.Sl)
	v.must("recursion", v.same(now.Len, old.Len.AddC(-1)), "the recursion has %s entries", flow.Show(now.Len))
	v.must("recursion", v.same(now.Ptr, old.Ptr), "the recursion's entries are %s", flow.Show(now.Ptr))
	n := v.numFrames().Add(f, -1)
	v.assume(ge(n, flow.C(1)))
	sus := v.suspended(v.s0)
	first := sus.Len.Add(n, -1)
	s1 := v.suspended(v.s)
	v.must("recursion", v.same(s1.Len, first), "%s states remain suspended instead of %s", flow.Show(s1.Len), flow.Show(first))
	v.must("recursion", v.same(s1.Ptr, sus.Ptr), "the states suspended are %s", flow.Show(s1.Ptr))
	st := m.suspendedStruct()
	ss := m.E.Sizes.Sizeof(fieldType(m.Dec, "suspended").Underlying().(*types.Slice).Elem())
	for _, name := range []string{"Dest", "Offset", "Len"} {
		v.ok("recursion")
		if fieldIndex(st, name) < 0 {
			v.fail("recursion", "the field %s isn't suspended", name)
			continue
		}
		restored, loops := false, 0
		for _, en := range v.ents {
			if en.Kind != flow.ELoop {
				continue
			}
			loops++
			all, every := v.sweep(en, n, func(w *V, i flow.Lin) bool {
				a := sus.Ptr.Add(first.Add(i, 1), ss)
				for _, x := range w.ents {
					if x.Kind != flow.EStore || !x.Pos.IsValid() {
						continue
					}
					if !w.same1(x.Addr, m.frameAddr(f.Add(i, 1), name)) {
						continue
					}
					l, ok := w.s.F.Norm(lin(x.Val)), true
					if len(l.T) != 1 || l.C != 0 || l.T[0].K != 1 || l.T[0].A.Op != "load" {
						ok = false
					}
					return ok && w.same1(l.T[0].A.Addr, a.AddC(m.Off(st, name)))
				}
				return false
			})
			if every && !all {
				v.fail("recursion", "%s of not all frames is restored", name)
				v.done()
			}
			restored = restored || all
		}
		if !restored {
			if loops > 0 && (!v.restores(name) || v.plain(v.ents)) {
				v.fail("recursion", "%s of the frames isn't restored", name)
			} else {
				v.unsure("recursion", "how %s of the frames is restored isn't known", name)
			}
		}
	}
	v.leftBehind(old, sus, first, n)
	v.onlyFrames(v.stores(), func(i flow.Lin, field string) bool {
		return v.same1(i, f) && strings.HasPrefix(field, "RecursionStack")
	}, true)
}

// plain tells whether all effects are understood: writes to regular addresses
// and appended elements.
func (v *V) plain(ens []*flow.Entry) bool {
	for _, x := range ens {
		switch x.Kind {
		case flow.EStore:
			for _, t := range x.Addr.T {
				if t.A.Op == "sym" && strings.Contains(t.A.Name, "@") {
					return false
				}
			}
		case flow.EEvent:
			if x.Ev.Name != "append" {
				return false
			}
		case flow.EHavoc:
			return false
		case flow.ELoop:
			for _, b := range x.Loop.Backs {
				if !v.plain(b.Entries) {
					return false
				}
			}
		}
	}
	return true
}

// restores tells whether a loop or a call may write to a field of the frames.
func (v *V) restores(name string) bool {
	may := false
	var visit func(ens []*flow.Entry, v *V)
	visit = func(ens []*flow.Entry, v *V) {
		for _, x := range ens {
			switch x.Kind {
			case flow.EStore:
				if v.region(x) == "frames" {
					_, field, ok := v.m.frameOf(v.s.F, x.Addr)
					may = may || !ok || field == name
				}
			case flow.EEvent, flow.EHavoc:
				may = true
			case flow.ELoop:
				for _, b := range x.Loop.Backs {
					visit(b.Entries, v)
				}
			}
		}
	}
	visit(v.ents, v)
	return may
}

func (v *V) inBody(f flow.Lin) {
	m := v.m
	rs := m.fr(v.s0, f, "RecursionStack").(flow.Sl)
	for _, en := range v.stores() {
		v.failAt(en, "recursion", "an effect of the test for recursion")
	}
	c, ok := v.o.Ret[0].(flow.Cond)
	if !ok {
		v.unsure("recursion", "unknown result")
		return
	}
	got := v.req(c)
	want := false
	if v.req(ge(rs.Len, flow.C(1))) {
		sz := m.E.Sizes.Sizeof(m.Rec)
		k := fieldIndex(m.Rec, "Suspended")
		if k < 0 {
			v.unsure("recursion", "the field isn't found")
			return
		}
		x := lin(m.E.Load(v.s0, rs.Ptr.Add(rs.Len.AddC(-1), sz).AddC(m.Off(m.Rec, "Suspended")), fieldType(m.Rec, "Suspended")))
		want = v.req(eq(x, v.suspended(v.s0).Len))
	}
	v.ok("recursion")
	if got != want {
		v.fail("recursion", "recursion is reported as %v although it's %v", got, want)
	}
}

// DumpFn renders the outcomes of a method.
func (m *Model) DumpFn(name string) string {
	fn := m.method(name)
	if fn == nil {
		return "not found"
	}
	args := []flow.Val{flow.A(m.D)}
	for _, p := range fn.Params[1:] {
		args = append(args, m.E.SymVal(p.Name(), p.Type()))
	}
	m.head = m.E.Start(fn, args)
	return m.Dump(m.E.Explore(m.E.Start(fn, args)))
}
