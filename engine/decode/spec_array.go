package decode

import (
	"go/types"
	"strings"

	"jscheck/flow"
)

// each runs f for an iteration of a loop: w validates what it does.
func (v *V) each(en *flow.Entry, b *flow.Back, f func(w *V)) {
	base := b.S.F.Clone()
	// Cases that were made don't depend on the iteration.
	for _, h := range v.s.F.Hist[len(v.o.S.F.Hist):] {
		dep := false
		var vals []flow.Val
		if h.Op == flow.IS {
			vals = append(vals, h.T)
		} else {
			vals = append(vals, h.L)
		}
		for _, x := range vals {
			flow.Visit(x, func(t *flow.Term) {
				if t == en.Loop.N || t.Op == "load" && t.Ver == en.Loop.Ver {
					dep = true
				}
				for _, c := range en.Loop.Comps {
					if c.Sym == t {
						dep = true
					}
				}
			})
		}
		if !dep && !base.Assume(h) {
			return // not an iteration in this case
		}
	}
	work := []*flow.Facts{base}
	for n := 0; len(work) > 0; n++ {
		fc := work[len(work)-1]
		work = work[:len(work)-1]
		if n > 500 {
			v.unsure("budget", "too many cases in a loop")
			return
		}
		w := &V{m: v.m, k: v.k, e: v.e, start: v.start, rep: &Rep{Obligations: map[string]int{}}, used: map[*flow.Entry]bool{}, compares: map[*flow.Entry]bool{}, ents: b.Entries}
		w.o = &flow.Outcome{Kind: flow.OCut, S: b.S, Pos: en.Loop.Pos, Fn: v.o.Fn}
		w.s = b.S.WithFacts(fc)
		w.s0 = v.s0.WithFacts(fc)
		w.at = w.s0
		w.claimed = append(append([]*flow.Entry{}, v.claimed...), en)
		need, stopped := flow.Try(func() { f(w) })
		if need != nil {
			x, y := fc.Clone(), fc
			okX, okY := x.Assume(*need), y.Assume(need.Negate())
			if okX && x.Decide(*need) == 0 || okY && y.Decide(*need) == 0 {
				v.unsure("split", "can't assume %s", flow.Show(*need))
				return
			}
			if okX {
				work = append(work, x)
			}
			if okY {
				work = append(work, y)
			}
			continue
		}
		if strings.HasPrefix(stopped, "infeasible") {
			continue
		}
		if stopped != "" && !strings.HasPrefix(stopped, "done") {
			w.unsure("spec", "%s", stopped)
		}
		v.failed = v.failed || w.failed
		v.rep.Findings = append(v.rep.Findings, w.rep.Findings...)
		for c, n := range w.rep.Obligations {
			v.rep.Obligations[c] += n
		}
	}
}

// mul is a product.
func (m *Model) mul(f *flow.Facts, a, b flow.Lin) flow.Lin {
	a, b = f.Norm(a), f.Norm(b)
	switch {
	case a.IsC():
		return b.Mul(a.C)
	case b.IsC():
		return a.Mul(b.C)
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return flow.A(m.E.App("mul", types.Typ[types.Uintptr], a, b))
}

// effects are the entries that have an effect other than on local variables.
func (v *V) effects() []*flow.Entry {
	var out []*flow.Entry
	for _, en := range v.ents {
		switch en.Kind {
		case flow.EStore:
			if en.Pos.IsValid() && v.region(en) != "local" {
				out = append(out, en)
			}
		case flow.EEvent:
			switch en.Ev.Name {
			case "newarray", "mallocgc", "makemap", "reflect.New", "append":
			default:
				out = append(out, en)
			}
		case flow.ELoop:
			out = append(out, en)
		}
	}
	return out
}

// array expects that an array is decoded.
func (v *V) array() {
	ti, si := v.m.TI, v.m.SI
	end := v.tok(ti, "End")
	switch v.e {
	case "Any":
		v.anyComposite()
	case "ArrayLen0":
		v.valEnd(si, end.AddC(1))
	case "Array":
		v.arrayOf()
	case "Slice", "SliceRecur":
		v.sliceOf()
	case "SliceEmptyStruct":
		v.allowed(v.p(), sliceT)
		if v.o.Kind == flow.OCut {
			got := v.final(v.p(), sliceT).(flow.Sl)
			n := v.tok(ti, "Elements")
			v.must("slicelen", v.same(got.Len, n), "the slice has the length %s instead of %s", flow.Show(got.Len), flow.Show(n))
			v.must("slicelen", v.decide(ge(got.Cap, got.Len)), "the slice has the capacity %s", flow.Show(got.Cap))
			v.must("slicenil", v.decide(flow.Cond{Op: flow.NE, L: got.Ptr}), "the slice may be nil")
		}
		v.valEnd(si, end.AddC(1))
	default:
		if t := v.m.scalarType(v.elemName()); isSliceType(v.e) && t != nil {
			v.typedSlice(t)
			return
		}
		v.mismatch()
	}
}

// elemName is the type of the elements of a slice of scalars.
func (v *V) elemName() string {
	switch n := strings.TrimPrefix(v.e, "Slice"); n {
	case "String":
		return "Str"
	default:
		return n
	}
}

// anyComposite expects that an object or array is decoded into an interface.
func (v *V) anyComposite() {
	m := v.m
	var er flow.Iface
	found := false
	str := m.E.ToStr(m.S)
	for _, t := range v.pathTerms("any error") {
		if a, ok := t.Args[0].(*flow.Term); ok && v.same(a.Args[0], str) == 1 && v.same(a.Args[1], m.TI) == 1 {
			er, found = m.E.AppVal(t, errorT).(flow.Iface), true
		}
	}
	if !found {
		app := m.E.App("decodeAny", nil, str, m.TI)
		er = m.E.AppVal(m.E.App("any error", nil, app), errorT).(flow.Iface)
	}
	if !v.req(flow.Cond{Op: flow.EQ, L: er.TW}) {
		v.wantErr(m.TI, "it contains a number that's out of range", v.global("ErrUnexpectedValue"), er)
		return
	}
	val := v.apps("any value", fieldlessAny, m.S, m.TI)
	v.allowed(v.p(), fieldlessAny)
	if v.o.Kind == flow.OCut {
		got := v.final(v.p(), fieldlessAny)
		v.must("any", v.same(got, val), "the value is %s instead of %s", flow.Show(got), flow.Show(val))
	}
	v.valEnd(m.SI, v.tok(m.TI, "End").AddC(1))
}

// arrayOf expects that the elements of an array are decoded next.
func (v *V) arrayOf() {
	ti, si := v.m.TI, v.m.SI
	child := si.AddC(1)
	n, max := v.tok(ti, "Elements"), v.f(child, "Cap")
	cleared := false
	for _, en := range v.unusedLoops() {
		if v.zeroLoop(en, child, n, max) {
			cleared = true
			break
		}
	}
	if !cleared && v.o.Kind == flow.OCut {
		v.ok("arrayzero")
		if !v.req(ge(n, max)) {
			if len(v.unusedLoops()) > 1 {
				v.unsure("arrayzero", "no loop that zeroes the remaining elements is known")
			} else {
				v.fail("arrayzero", "the elements without a value aren't zeroed")
			}
		}
	}
	if !v.req(ge(n, flow.C(1))) {
		v.valEnd(si, ti.AddC(2))
		return
	}
	v.setFrame(child, "Dest", v.p(), "element")
	v.setFrame(child, "Len", flow.C(0), "element")
	v.setFrame(child, "Offset", flow.C(0), "element")
	v.wantNext(ti.AddC(1), &child)
}

// zeroLoop recognizes a loop that clears the elements of an array from n on.
func (v *V) zeroLoop(en *flow.Entry, child, n, max flow.Lin) bool {
	r := en.Loop
	has := false
	for _, b := range r.Backs {
		for _, x := range b.Entries {
			has = has || x.Kind == flow.EEvent && x.Ev.Name == "typedmemclr"
		}
	}
	if !has {
		return false
	}
	v.use(en)
	p, typ, size := v.p(), v.f(child, "Typ"), v.f(child, "Size")
	for _, c := range r.Comps {
		if c.Kind != flow.Ind || !isLin(c.Val) {
			continue
		}
		i := lin(c.Val)
		fits := true
		for _, b := range r.Backs {
			v.each(en, b, func(w *V) {
				found := false
				for _, x := range w.effects() {
					if x.Kind == flow.EEvent && x.Ev.Name == "typedmemclr" && w.same(x.Ev.Args[1], p.Add(v.m.mul(w.s.F, i, size), 1)) == 1 {
						found = true
					}
				}
				fits = fits && found
			})
		}
		if !fits {
			continue
		}
		for _, b := range r.Backs {
			v.each(en, b, func(w *V) {
				fx := w.effects()
				if len(fx) != 1 {
					w.unsure("arrayzero", "the loop has other effects")
					return
				}
				w.must("arrayzero", w.same(fx[0].Ev.Args[0], typ), "the elements are cleared as %s", flow.Show(fx[0].Ev.Args[0]))
				w.must("address", w.decide(ge(max.AddC(-1), i)), "memory after the array may be cleared")
				w.must("arrayzero", w.decide(ge(i, n)), "elements with a value may be cleared")
			})
		}
		if v.o.Kind != flow.OCut {
			return true
		}
		v.ok("arrayzero")
		init := lin(c.Init)
		switch c.Delta.C {
		case 1:
			if !v.same1(init, n) || v.decide(ge(i, max)) != 1 {
				v.fail("arrayzero", "the elements cleared range from %s to %s", flow.Show(init), flow.Show(i))
			}
		case -1:
			if !v.same1(init, max.AddC(-1)) || v.decide(ge(n.AddC(-1), i)) != 1 {
				v.fail("arrayzero", "the elements cleared range from %s down to %s", flow.Show(init), flow.Show(i))
			}
		default:
			v.fail("arrayzero", "not every element is cleared")
		}
		return true
	}
	reg := true
	for _, b := range r.Backs {
		for _, x := range b.Entries {
			if x.Kind == flow.EEvent && x.Ev.Name == "typedmemclr" {
				flow.Visit(x.Ev.Args[1], func(t *flow.Term) { reg = reg && !strings.Contains(t.Name, "@") })
			}
		}
	}
	if reg {
		v.ok("arrayzero")
		v.fail("arrayzero", "the memory cleared isn't that of the elements without a value")
	} else {
		v.unsure("arrayzero", "the range of the elements that are cleared isn't known")
	}
	return true
}

func (v *V) same1(a, b flow.Val) bool { return v.same(a, b) == 1 }

// mayRetain are destinations whose value may be kept in part when decoding.
var mayRetain = []string{"Struct", "StructRecur", "Map", "MapRecur", "MapStringString", "Array", "Slice", "SliceRecur",
	"Ptr", "PtrRecur", "JSONUnmarshaler", "TextUnmarshaler"}

// sliceOf expects that the elements of a slice are decoded next.
func (v *V) sliceOf() {
	m := v.m
	ti, si := m.TI, m.SI
	p := v.p()
	el := si.AddC(1)
	if v.e == "SliceRecur" {
		el = v.f(si, "RecurFrame")
	}
	n := v.tok(ti, "Elements")
	old := m.E.Load(v.s0, p, sliceT).(flow.Sl)
	v.allowed(p, sliceT)
	cut := v.o.Kind == flow.OCut
	got := v.final(p, sliceT).(flow.Sl)
	if !v.req(ge(n, flow.C(1))) {
		v.emptySlice(got, old)
		v.valEnd(si, ti.AddC(2))
		return
	}
	if cut {
		v.must("slicelen", v.same(got.Len, n), "the slice has the length %s instead of %s", flow.Show(got.Len), flow.Show(n))
		if v.same1(got.Ptr, old.Ptr) {
			v.must("slicecap", v.decide(ge(old.Cap, n)), "the memory of the slice may be too small")
			v.must("slicecap", v.decide(ge(old.Cap, got.Cap)), "the capacity of the slice is %s instead of %s", flow.Show(got.Cap), flow.Show(old.Cap))
		} else {
			v.grown(got, old, el, n)
		}
	}
	if v.e == "SliceRecur" {
		if cut {
			el = v.recurse("enter", si)
		}
		v.setFrame(el, "Dest", got.Ptr, "element")
		if cut {
			v.setFrame(el, "Offset", v.cur(el, "Offset"), "element")
		}
		v.wantNext(ti.AddC(1), &el)
		return
	}
	v.setFrame(el, "Dest", got.Ptr, "element")
	v.setFrame(el, "Offset", flow.C(0), "element")
	v.wantNext(ti.AddC(1), &el)
}

// emptySlice expects an empty slice that isn't nil.
func (v *V) emptySlice(got, old flow.Sl) {
	if v.o.Kind != flow.OCut {
		return
	}
	v.must("slicelen", v.same(got.Len, flow.C(0)), "the length of the empty slice is %s", flow.Show(got.Len))
	v.must("slicenil", v.decide(flow.Cond{Op: flow.NE, L: got.Ptr}), "the empty slice may be nil")
	v.ok("slicecap")
	if !v.same1(got.Cap, flow.C(0)) && !(v.same1(got.Ptr, old.Ptr) && v.decide(ge(old.Cap, got.Cap)) == 1) {
		v.fail("slicecap", "the capacity of the empty slice is %s", flow.Show(got.Cap))
	}
}

// grown expects that a slice has new memory with the previous elements.
func (v *V) grown(got, old flow.Sl, el, n flow.Lin) {
	v.ok("slicecap")
	size := v.f(el, "Size")
	if v.same1(got.Ptr, v.global("emptyStructAddr")) {
		if !v.req(eq(size, flow.C(0))) {
			v.fail("slicecap", "the elements of the slice don't have memory")
		}
		return
	}
	v.must("slicecap", v.decide(ge(n.AddC(-1), old.Cap)), "the memory of the slice is replaced although it suffices")
	b := flow.Base(got.Ptr)
	var at *flow.Entry
	for _, en := range v.ents {
		if en.Kind == flow.EEvent && en.Ev.Name == "newarray" && v.same1(en.Ev.Res, got.Ptr) {
			at = en
		}
	}
	if b == nil || at == nil {
		v.fail("slicecap", "the memory of the slice is %s", flow.Show(got.Ptr))
		return
	}
	v.use(at)
	if !v.same1(at.Ev.Args[0], v.f(el, "Typ")) {
		v.failAt(at, "slicecap", "the memory of the slice is allocated for %s", flow.Show(at.Ev.Args[0]))
	}
	k := lin(at.Ev.Args[1])
	if v.decide(ge(k, n)) != 1 || v.decide(ge(k, got.Cap)) != 1 || v.decide(ge(got.Cap, n)) != 1 {
		v.failAt(at, "slicecap", "the memory of the slice is allocated for %s elements with a capacity of %s", flow.Show(k), flow.Show(got.Cap))
	}
	v.ok("slicecopy")
	cp := v.event("typedslicecopy")
	if cp != nil {
		v.use(cp)
		a := cp.Ev.Args
		if !v.same1(a[0], v.f(el, "Typ")) || !v.same1(a[1], got.Ptr) || v.decide(ge(k, lin(a[2]))) != 1 ||
			!v.same1(a[3], old.Ptr) || !v.same1(a[4], old.Len) || v.decide(ge(lin(a[2]), n)) != 1 && v.decide(ge(lin(a[2]), old.Len)) != 1 {
			v.failAt(cp, "slicecopy", "the previous elements aren't copied to the new memory")
		}
		return
	}
	if v.req(eq(old.Len, flow.C(0))) || v.req(eq(size, flow.C(0))) {
		return
	}
	if v.e == "SliceRecur" || v.typeIs(el, mayRetain...) {
		v.fail("slicecopy", "the previous elements aren't copied to the new memory")
	}
}

// elem is the specification of an element of a slice of scalars.
func (v *V) elem(t flow.Lin, e string) result {
	raw := v.raw(t, 0)
	one := func(x flow.Val) result { return result{vals: []flow.Val{x}} }
	v.also = "value"
	if v.kindIs(t, "Null") {
		v.also = "null"
		return one(v.m.E.Zero(v.m.scalarType(e)))
	}
	switch e {
	case "Bool":
		if v.kindIs(t, "True") {
			return one(boolCond(true))
		}
		if v.kindIs(t, "False") {
			return one(boolCond(false))
		}
	case "Str":
		if v.kindIs(t, "String") {
			return one(v.unescaped(v.raw(t, 1)))
		}
	default:
		if it, ok := v.m.intOf(e); ok && v.kindIs(t, "Integer") {
			return v.parseInt(raw, it)
		}
		if b, ok := floats[e]; ok {
			if v.kindIs(t, "Integer") {
				return v.parseFloat(raw, b, true)
			}
			if v.kindIs(t, "Number") {
				return v.parseFloat(raw, b, false)
			}
		}
	}
	return v.invalid("a value of this kind can't be decoded into the element", "ErrUnexpectedValue")
}

// typedSlice expects that all elements of a slice of scalars are decoded.
func (v *V) typedSlice(t types.Type) {
	m := v.m
	ti, si := m.TI, m.SI
	p := v.p()
	n, end := v.tok(ti, "Elements"), v.tok(ti, "End")
	st := types.NewSlice(t)
	old := m.E.Load(v.s0, p, st).(flow.Sl)
	v.allowed(p, st)
	got := v.final(p, st).(flow.Sl)
	if !v.req(ge(n, flow.C(1))) {
		v.emptySlice(got, old)
		v.valEnd(si, end.AddC(1))
		return
	}
	// The elements' loop.
	var loop *flow.Entry
	for _, en := range v.unusedLoops() {
		if v.elemLoop(en) {
			loop = en
			break
		}
	}
	if loop == nil {
		v.ok("element")
		for _, en := range v.unusedLoops() {
			if v.endLoop(en) {
				continue
			}
			if i, ok := v.otherTokens(en); ok {
				v.claimed = append(v.claimed, en)
				v.fail("element", "the elements are taken from the tokens at %s", flow.Show(i))
			} else {
				v.unsure("element", "the loop over the elements isn't found")
			}
			v.done()
		}
		v.fail("element", "the elements aren't decoded")
		v.done()
	}
	v.use(loop)
	r := loop.Loop
	size := m.E.Sizes.Sizeof(t)
	cur := ti.AddC(1).Add(flow.A(r.N), 1)
	var mem []flow.Lin
	for _, b := range r.Backs {
		v.each(loop, b, func(w *V) {
			res := w.elem(cur, w.elemName())
			if res.errs != nil {
				w.ok("accept")
				w.fail("accept", "an element is accepted although %s", res.why)
				return
			}
			fx := w.effects()
			var st *flow.Entry
			for _, x := range fx {
				if x.Kind != flow.EStore {
					w.unsure("element", "decoding an element has other effects")
					return
				}
				w.aliasCheck(x)
				if st == nil || w.decide(ge(st.Addr, x.Addr.AddC(1))) == 1 {
					st = x
				}
			}
			w.ok("element")
			if st == nil {
				w.fail("element", "an element isn't written")
				return
			}
			for _, x := range fx {
				// A string may be stored in parts.
				d := x.Addr.Add(st.Addr, -1)
				if w.decide(ge(flow.C(size-x.Size), d)) != 1 {
					w.failAt(x, "address", "%d bytes are written to %s, which isn't part of the element", x.Size, flow.Show(x.Addr))
				}
			}
			base := st.Addr.Add(flow.A(r.N), -size)
			mem = append(mem, base)
			v.elemMemory(w, base, old, n)
			x := m.E.Load(w.s, st.Addr, t)
			w.ok("value")
			for _, y := range res.vals {
				if w.same1(x, y) || w.same1(stripConv(x), y) {
					return
				}
			}
			w.fail("value", "the element is %s instead of %s", flow.Show(x), flow.Show(res.vals[len(res.vals)-1]))
		})
	}
	if v.o.Kind != flow.OCut {
		if v.o.Kind == flow.OReturn && v.decide(ge(end.AddC(-1), cur)) == 1 || v.decide(ge(n.AddC(-1), flow.A(r.N))) == 1 {
			res := v.elem(cur, v.elemName())
			if res.errs != nil {
				v.wantErr(cur, res.why, res.errs...)
				return
			}
		}
		v.wantNext(end.AddC(1), nil)
		return
	}
	// All elements were scalars, so they're as many as there are tokens.
	v.assume(eq(end, ti.AddC(1).Add(n, 1)))
	v.must("element", v.decide(eq(flow.A(r.N), n)), "not all elements are decoded")
	v.must("slicelen", v.same(got.Len, n), "the slice has the length %s instead of %s", flow.Show(got.Len), flow.Show(n))
	v.elemMemory(v, got.Ptr, old, n)
	for _, b := range mem {
		v.must("element", v.same(got.Ptr, b), "the slice's memory isn't where the elements were written to")
	}
	v.ok("slicecap")
	if v.same1(got.Ptr, old.Ptr) {
		if v.decide(ge(old.Cap, got.Cap)) != 1 {
			v.fail("slicecap", "the capacity of the slice is %s instead of %s", flow.Show(got.Cap), flow.Show(old.Cap))
		}
	}
	v.valEnd(si, end.AddC(1))
}

// elemMemory expects that there's memory for n elements at an address.
func (v *V) elemMemory(w *V, a flow.Lin, old flow.Sl, n flow.Lin) {
	w.ok("slicecap")
	if w.same1(a, old.Ptr) {
		if w.decide(ge(old.Cap, n)) != 1 {
			w.fail("slicecap", "the memory of the slice may be too small")
		}
		return
	}
	if b := flow.Base(a); b != nil && b.Op == "app" && b.Name == "makeslice" && w.same1(a, flow.A(b)) {
		if w.decide(ge(lin(b.Args[1]), n)) != 1 {
			w.fail("slicecap", "the memory of the slice is allocated for %s elements only", flow.Show(b.Args[1]))
		}
		if w == v {
			w.must("slicecap", w.decide(ge(n.AddC(-1), old.Cap)), "the memory of the slice is replaced although it suffices")
		}
		return
	}
	w.fail("slicecap", "the memory of the slice is %s", flow.Show(a))
}

// otherTokens finds the index of the token each iteration of a loop looks at.
func (v *V) otherTokens(en *flow.Entry) (flow.Lin, bool) {
	m := v.m
	var at flow.Lin
	found := false
	for _, b := range en.Loop.Backs {
		hit := false
		for _, h := range b.Hist {
			h.Visit(func(t *flow.Term) {
				if t.Op != "load" || flow.Region(t.Addr) != flow.Region(m.Tokens.Ptr) {
					return
				}
				d := b.S.F.Norm(t.Addr).Add(m.Tokens.Ptr, -1).AddC(-m.Off(m.Tok, "Type"))
				if d.Coef(en.Loop.N) == 0 || d.C%m.TS != 0 {
					return
				}
				i := flow.C(d.C / m.TS)
				for _, x := range d.T {
					if x.K%m.TS != 0 || strings.Contains(x.A.Name, "@") {
						return
					}
					i = i.Add(flow.A(x.A), x.K/m.TS)
				}
				hit, at = true, i
			})
		}
		if !hit {
			return at, false
		}
		found = true
	}
	return at, found
}

// elemLoop tells whether a loop runs over the tokens of an array's elements:
// in every iteration, the kind of the token after as many other ones is known.
func (v *V) elemLoop(en *flow.Entry) bool {
	cur := v.m.TI.AddC(1).Add(flow.A(en.Loop.N), 1)
	if len(en.Loop.Backs) == 0 {
		return false
	}
	for _, b := range en.Loop.Backs {
		known := false
		w := v.with(b.S)
		for _, k := range v.m.kinds {
			known = known || b.S.F.Decide(flow.Cond{Op: flow.EQ, L: w.tok(cur, "Type").AddC(-k)}) != 0
		}
		if !known {
			return false
		}
	}
	return true
}
