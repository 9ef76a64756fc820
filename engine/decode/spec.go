package decode

import (
	"go/types"
	"strings"

	"jscheck/flow"
)

// run is the specification of a step, executed on the facts of an outcome.
func (v *V) run() {
	v.wellFormed()
	switch v.o.Kind {
	case flow.OPanic:
		v.ok("panic")
		v.fail("panic", "panics: %s", v.o.Msg)
		return
	case flow.OStop:
		v.unsure("analysis", "%s: %s", v.o.Rule, v.o.Msg)
		return
	case flow.OReturn:
		if len(v.o.Ret) != 1 || v.same(v.o.Ret[0], flow.Cond{Op: flow.True}) != 1 {
			v.ok("next")
			v.fail("next", "the iteration over the tokens ends early without an error")
			return
		}
	}
	v.ok("ends")
	if v.repeats() {
		v.fail("ends", "the iteration changes nothing: it's repeated forever")
	}
	_, stopped := tryDone(v.transition)
	if stopped != "" {
		flow.Stop(stopped, "")
	}
	if !v.failed {
		v.finish()
	}
}

// tryDone runs f, which may be done early.
func tryDone(f func()) (done bool, stopped string) {
	need, s := flow.Try(f)
	if need != nil {
		panic(flow.MakeFork(*need))
	}
	if strings.HasPrefix(s, "done") {
		return true, ""
	}
	return false, s
}

func (v *V) assume(c flow.Cond) {
	if !v.s.F.Assume(c) {
		infeasible()
	}
}

// wellFormed are facts about the tokens and the frames.
func (v *V) wellFormed() {
	ti, si := v.m.TI, v.m.SI
	// There's memory for the value.
	v.assume(flow.Cond{Op: flow.NE, L: v.m.fr(v.s0, si, "Dest").(flow.Lin)})
	v.assume(flow.Cond{Op: flow.NE, L: v.p()})
	switch v.k {
	case "Array", "Object":
		// The tokenizer's contract: an empty composite is closed by the next token.
		if v.decide(flow.Cond{Op: flow.GE, L: v.tok(ti, "Elements").AddC(-1)}) == -1 {
			v.assume(eq(v.tok(ti, "End"), ti.AddC(1)))
		}
		// Every element has a token at least, every field has two.
		k := int64(1)
		if v.k == "Object" {
			k = 2
		}
		v.assume(ge(v.tok(ti, "End"), ti.AddC(1).Add(v.tok(ti, "Elements"), k)))
	}
}

// transition is the specified step.
func (v *V) transition() {
	ti, si := v.m.TI, v.m.SI
	switch v.e {
	case "Ptr":
		switch v.k {
		case "Null", "ObjectEnd", "ArrayEnd", "Key":
		default:
			v.onPtr()
			return
		}
	case "JSONUnmarshaler":
		switch v.k {
		case "Null", "ObjectEnd", "ArrayEnd", "Key":
		default:
			v.unmarshalJSON()
			return
		}
	}
	switch v.k {
	case "True", "False":
		switch v.e {
		case "Bool":
			v.wantAt("value", v.p(), types.Typ[types.Bool], boolCond(v.k == "True"))
		case "Any":
			v.wantAny(types.Typ[types.Bool], boolCond(v.k == "True"))
		default:
			v.mismatch()
			return
		}
		v.valEnd(si, ti.AddC(1))
	case "Integer", "Number":
		v.number()
	case "String":
		v.str()
	case "Null":
		v.null()
	case "Array":
		v.array()
	case "Object":
		v.object()
	case "Key":
		v.key()
	case "ObjectEnd":
		switch v.e {
		case "Struct", "Map", "MapRecur":
			v.valEnd(si, ti.AddC(1))
		case "StructRecur":
			v.recEnd(si, ti.AddC(1))
		default:
			infeasible() // no such frame is current then
		}
	case "ArrayEnd":
		if v.e == "StructRecur" && v.inRecursion(si) {
			c := v.recurse("leave", si)
			v.valEnd(c, ti.AddC(1))
			return
		}
		if _, ok := v.m.types[v.e]; !ok {
			infeasible()
		}
		// The frame of the elements follows the frame of the array.
		par := v.f(si, "ParentFrameIndex")
		v.assume(eq(par, si.AddC(-1)))
		v.assume(flow.Cond{Op: flow.GE, L: si.AddC(-1)})
		v.valEnd(si.AddC(-1), ti.AddC(1))
	}
}

func boolCond(b bool) flow.Cond {
	if b {
		return flow.Cond{Op: flow.True}
	}
	return flow.Cond{}
}

// mismatch expects that a value of the kind isn't accepted.
func (v *V) mismatch() {
	v.wantErr(v.m.TI, "a value of this kind can't be decoded into the destination", v.global("ErrUnexpectedValue"))
}

// wantAny expects that a value is stored in an interface.
func (v *V) wantAny(t types.Type, val flow.Val) {
	at := fieldlessAny
	v.allowed(v.p(), at)
	if v.o.Kind != flow.OCut {
		return
	}
	got := v.final(v.p(), at)
	v.must("any", v.same(got, flow.Iface{T: t, V: val}), "the value is %s instead of %s", flow.Show(got), flow.Show(val))
}

var fieldlessAny = types.NewInterfaceType(nil, nil).Complete()

// --- the end of a value ---

func (v *V) unusedLoops() []*flow.Entry {
	var out []*flow.Entry
	for _, en := range v.ents {
		if en.Kind == flow.ELoop && !v.used[en] {
			out = append(out, en)
		}
	}
	return out
}

func lin(x flow.Val) flow.Lin {
	if l, ok := x.(flow.Lin); ok {
		return l
	}
	return flow.Lin{}
}

// isLin returns whether x is an integer or an address.
func isLin(x flow.Val) bool { _, ok := x.(flow.Lin); return ok }

// with is v under the facts of another state.
func (v *V) with(s *flow.State) *V {
	w := *v
	w.toks = nil
	w.s0 = v.s0.WithFacts(s.F)
	return &w
}

// endLoop recognizes a loop that completes values, from wherever it starts.
func (v *V) endLoop(en *flow.Entry) bool {
	if v.m.Tok == nil {
		return false
	}
	w := *v
	w.used, w.compares = map[*flow.Entry]bool{}, map[*flow.Entry]bool{}
	w.rep = &Rep{Obligations: map[string]int{}}
	w.unknown = "-"
	found := false
	flow.Try(func() {
		for _, c := range en.Loop.Comps {
			if !isLin(c.Init) {
				continue
			}
			if _, ok := w.climb(en, lin(c.Init)); ok {
				found = true
			} else if _, ok := w.arrayEndLoop(en, lin(c.Init)); ok {
				found = true
			}
		}
	})
	return found
}

// claimEnds claims the loops that complete values: they're total.
func (v *V) claimEnds() {
	for _, en := range v.unusedLoops() {
		for _, c := range en.Loop.Comps {
			if !isLin(c.Init) {
				continue
			}
			if _, ok := v.climb(en, lin(c.Init)); ok {
				break
			}
			if _, ok := v.arrayEndLoop(en, lin(c.Init)); ok {
				v.use(en)
				break
			}
		}
	}
}

// climbLoop finds a loop that goes from a frame to the parents of pointers' values.
func (v *V) climbLoop(c flow.Lin) (flow.Lin, bool) {
	for _, en := range v.unusedLoops() {
		if x, ok := v.climb(en, c); ok {
			return x, true
		}
	}
	return c, false
}

func (v *V) climb(en *flow.Entry, c flow.Lin) (flow.Lin, bool) {
next:
	for n := 0; n < 1; n++ {
		for i, cp := range en.Loop.Comps {
			if cp.Kind != flow.Gen || cp.Sym == nil || !isLin(cp.Init) || v.same(cp.Init, c) != 1 {
				continue
			}
			for _, b := range en.Loop.Backs {
				cur := flow.A(cp.Sym)
				w := v.with(b.S)
				par := w.f(cur, "ParentFrameIndex")
				if b.S.F.Decide(flow.Cond{Op: flow.NE, L: par.AddC(-noParent)}) != 1 ||
					b.S.F.Decide(flow.Cond{Op: flow.EQ, L: w.f(par, "Type").AddC(-v.m.types["Ptr"])}) != 1 ||
					v.m.E.Same(b.S.F, b.Next[i], par) != 1 {
					continue next
				}
				for _, x := range b.Entries {
					if x.Kind == flow.EEvent || x.Kind == flow.ELoop || x.Kind == flow.EStore && v.region(x) != "local" && x.Pos.IsValid() {
						continue next
					}
				}
			}
			v.use(en)
			return flow.A(cp.Sym), true
		}
	}
	return c, false
}

// valEnd expects that a value of a frame ended before the token ti.
func (v *V) valEnd(c, ti flow.Lin) {
	if v.o.Kind != flow.OCut {
		v.wantNext(ti, nil)
		return
	}
	for n := 0; ; n++ {
		if x, ok := v.climbLoop(c); ok {
			c = x
		}
		par := v.f(c, "ParentFrameIndex")
		if v.req(eq(par, flow.C(noParent))) {
			v.wantNext(ti, nil)
			return
		}
		if !v.typeIs(par, "Ptr") {
			v.parentEnd(c, par, ti)
			return
		}
		if n > 2 {
			v.ok("frame")
			v.fail("frame", "the values containing a pointer's value aren't completed")
			v.done()
		}
		c = par
	}
}

func (v *V) parentEnd(c, par, ti flow.Lin) {
	switch {
	case v.typeIs(par, "Array"):
		n := lin(v.cur(c, "Len")).AddC(1)
		v.setFrame(c, "Len", n, "arraylen")
		if v.req(ge(n, lin(v.f(c, "Cap")))) {
			v.area = "array"
			ti = v.skipToArrayEnd(ti)
			// The offset doesn't matter anymore.
			v.setFrame(c, "Offset", v.m.fr(v.s, c, "Offset"), "offset")
			v.wantNext(ti, &c)
			return
		}
		v.bump(c)
		v.wantNext(ti, &c)
	case v.typeIs(par, "Slice"):
		v.bump(c)
		v.wantNext(ti, &c)
	case v.typeIs(par, "Map", "Struct", "StructRecur"):
		v.wantNext(ti, &par)
	default:
		infeasible() // no other type has a child
	}
}

// bump expects that the frame moves on to the next element.
func (v *V) bump(c flow.Lin) {
	v.setFrame(c, "Offset", lin(v.cur(c, "Offset")).Add(v.f(c, "Size"), 1), "offset")
}

// skipToArrayEnd expects that the remaining elements of an array are skipped.
func (v *V) skipToArrayEnd(ti flow.Lin) flow.Lin {
	if v.decide(eq(v.tok(ti, "Type"), flow.C(v.m.kinds["ArrayEnd"]))) == 1 {
		return ti
	}
	for _, en := range v.unusedLoops() {
		if t, ok := v.arrayEndLoop(en, ti); ok {
			v.use(en)
			return t
		}
	}
	for _, en := range v.unusedLoops() {
		if v.endLoop(en) || v.linear(en) {
			v.claimed = append(v.claimed, en)
			continue
		}
		v.unsure("next", "a loop isn't known")
		v.done()
	}
	v.ok("next")
	v.fail("next", "the extra elements of the array aren't skipped")
	v.done()
	return ti
}

// arrayEndLoop recognizes a loop that finds the end of the array at ti.
func (v *V) arrayEndLoop(en *flow.Entry, ti flow.Lin) (flow.Lin, bool) {
	m := v.m
	r := en.Loop
	ti0 := -1
	for i, c := range r.Comps {
		if isLin(c.Init) && v.same(c.Init, ti) == 1 && (c.Kind == flow.Gen || c.Kind == flow.Ind && c.Delta.Eq(flow.C(1))) {
			ti0 = i
		}
	}
	if ti0 < 0 {
		return ti, false
	}
	t := lin(r.Comps[ti0].Val)
	typ := func(s *flow.State, k string) int {
		return s.F.Decide(flow.Cond{Op: flow.EQ, L: v.with(s).tok(t, "Type").AddC(-m.kinds[k])})
	}
	if typ(v.s, "ArrayEnd") != 1 {
		return ti, false
	}
	// Nested composites are either jumped over or their depth is counted.
	jump := true
	for _, b := range r.Backs {
		nx := lin(b.Next[ti0])
		switch {
		case m.E.Same(b.S.F, nx, t.AddC(1)) == 1 && typ(b.S, "Array") == -1 && typ(b.S, "ArrayEnd") == -1:
			// What's in an object doesn't have its own ends at this level unless
			// it's jumped over.
			if typ(b.S, "Object") != -1 {
				jump = false
			}
		case m.E.Same(b.S.F, nx, v.with(b.S).tok(t, "End").AddC(1)) == 1 && (typ(b.S, "Array") == 1 || typ(b.S, "Object") == 1):
		default:
			jump = false
		}
	}
	if jump {
		return t, true
	}
	for i, c := range r.Comps {
		if c.Kind != flow.Gen || i == ti0 || !isLin(c.Init) {
			continue
		}
		l0 := lin(c.Init)
		l := lin(c.Val)
		// The depth doesn't become less than in the beginning: the invariant is
		// assumed and holds again for the next iteration.
		inv := ge(l, l0)
		vf := v.s.F.Clone()
		if !vf.Assume(inv) || vf.Decide(ge(l0, l)) != 1 {
			continue
		}
		ok := true
		both := 0 // whether objects are counted, too
		for _, b := range r.Backs {
			f := b.S.F.Clone()
			if !f.Assume(inv) {
				continue
			}
			nx := lin(b.Next[i])
			if m.E.Same(f, b.Next[ti0], t.AddC(1)) != 1 {
				ok = false
			}
			is := func(k string) int {
				return f.Decide(flow.Cond{Op: flow.EQ, L: v.with(b.S).tok(t, "Type").AddC(-m.kinds[k])})
			}
			up, down, keep := m.E.Same(f, nx, l.AddC(1)) == 1, m.E.Same(f, nx, l.AddC(-1)) == 1 && f.Decide(ge(l, l0.AddC(1))) == 1, m.E.Same(f, nx, l) == 1
			switch {
			case is("Array") == 1 && up:
			case is("ArrayEnd") == 1 && down:
			case is("Object") == 1 && up:
				both |= 1
			case is("ObjectEnd") == 1 && down:
				both |= 2
			case is("Array") == -1 && is("ArrayEnd") == -1 && keep:
				if is("Object") != -1 {
					both |= 4
				}
				if is("ObjectEnd") != -1 {
					both |= 8
				}
			default:
				ok = false
			}
		}
		if ok && both&5 != 5 && both&10 != 10 && both&9 != 9 && both&6 != 6 {
			return t, true
		}
	}
	return ti, false
}

// linear tells whether an iteration of a loop only looks at tokens and counts.
func (v *V) linear(en *flow.Entry) bool {
	r := en.Loop
	known := func(x flow.Val) bool {
		ok := true
		flow.Visit(x, func(t *flow.Term) {
			switch t.Op {
			case "sym":
				if strings.Contains(t.Name, "@") {
					own := false
					for _, c := range r.Comps {
						own = own || c.Sym == t
					}
					ok = ok && own
				}
			case "load":
				g := flow.Region(t.Addr)
				ok = ok && (g == flow.Region(v.m.Tokens.Ptr) || g == flow.Region(v.m.Frames) || g == flow.Region(flow.A(v.m.D)))
			case "app", "proj":
				ok = false
			}
		})
		return ok
	}
	for _, b := range r.Backs {
		for _, x := range b.Entries {
			if x.Kind != flow.EStore || x.Pos.IsValid() && v.region(x) != "local" {
				return false
			}
		}
		for i, c := range r.Comps {
			if c.Kind == flow.Gen && (!isLin(b.Next[i]) || !known(b.Next[i])) {
				return false
			}
		}
		for _, h := range b.Hist {
			if h.T != nil || !known(h.L) {
				return false
			}
		}
	}
	return true
}

// inRecursion tells whether the frame's value is directly contained in a
// recursive container.
func (v *V) inRecursion(si flow.Lin) bool {
	return v.req(v.m.inRecursion(v.at, si))
}

// recEnd expects that the value of a frame that may be recursive ended.
func (v *V) recEnd(si, ti flow.Lin) {
	if v.o.Kind != flow.OCut {
		v.wantNext(ti, nil)
		return
	}
	if !v.inRecursion(si) {
		v.valEnd(si, ti)
		return
	}
	rs := v.cur(si, "RecursionStack").(flow.Sl)
	sz := v.m.E.Sizes.Sizeof(v.m.Rec)
	c := lin(v.m.E.Load(v.at, rs.Ptr.Add(rs.Len.AddC(-1), sz).AddC(v.m.Off(v.m.Rec, "ContainerFrame")), fieldType(v.m.Rec, "ContainerFrame")))
	switch {
	case v.typeIs(c, "SliceRecur"):
		v.bump(si)
		v.wantNext(ti, &si)
	case v.typeIs(c, "MapRecur"):
		x := v.recurse("leave", si)
		v.wantNext(ti, &x)
	case v.typeIs(c, "PtrRecur"):
		x := v.recurse("leave", si)
		v.valEnd(x, ti)
	default:
		infeasible()
	}
}

// onPtr expects that the value is decoded into the pointer's target.
func (v *V) onPtr() {
	m := v.m
	si := m.SI
	ch := si.AddC(1)
	ptrT := types.Typ[types.UnsafePointer]
	old := lin(m.E.Load(v.s0, v.p(), ptrT))
	if v.o.Kind != flow.OCut {
		v.wantNext(m.TI, &ch)
		return
	}
	if !v.req(eq(old, flow.C(0))) {
		v.setFrame(ch, "Dest", old, "pointer")
		v.wantNext(m.TI, &ch)
		return
	}
	v.allowed(v.p(), ptrT)
	got := lin(v.final(v.p(), ptrT))
	v.newValue(got, ch, "pointer")
	v.setFrame(ch, "Dest", got, "pointer")
	v.wantNext(m.TI, &ch)
}

// newValue expects that p points to a new zero value of the type of a frame.
func (v *V) newValue(p, fr flow.Lin, cat string) {
	v.ok(cat)
	size := v.f(fr, "Size")
	if v.same(p, v.global("emptyStructAddr")) == 1 {
		if !v.req(eq(size, flow.C(0))) {
			v.fail(cat, "the pointer to the empty struct is used for a value of another size")
		}
		return
	}
	b := flow.Base(p)
	for _, en := range v.ents {
		if en.Kind != flow.EEvent || v.used[en] || b == nil || v.same(en.Ev.Res, p) != 1 {
			continue
		}
		switch en.Ev.Name {
		case "mallocgc":
			if v.same(en.Ev.Args[0], size) == 1 && v.same(en.Ev.Args[1], v.f(fr, "Typ")) == 1 &&
				v.same(en.Ev.Args[2], flow.Cond{Op: flow.True}) == 1 {
				v.use(en)
				return
			}
		case "newarray":
			if v.same(en.Ev.Args[0], v.f(fr, "Typ")) == 1 && v.decide(flow.Cond{Op: flow.GE, L: lin(en.Ev.Args[1]).AddC(-1)}) == 1 {
				v.use(en)
				return
			}
		}
		v.fail(cat, "the memory of the new value isn't allocated for its type and size: %s", flow.Show(en.Ev.Res))
		return
	}
	v.fail(cat, "the pointer is set to %s instead of a new value", flow.Show(p))
}
