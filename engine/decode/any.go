package decode

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
	"jscheck/load"
)

// CheckAny validates the function that decodes a value into an interface: given
// that it's right for the values within, it's right for the value.
func (m *Model) CheckAny(rep *Rep) {
	fn := m.decodeAnyFn()
	if fn == nil {
		return // values are decoded differently
	}
	m.E.Cursors = true
	defer func() { m.E.Cursors = false }()
	tail := flow.Sl{Ptr: m.Tokens.Ptr.Add(m.TI, m.TS), Len: m.Tokens.Len.Add(m.TI, -1), Cap: m.Tokens.Cap.Add(m.TI, -1)}
	for _, k := range []string{"Null", "True", "False", "String", "Integer", "Number", "Array", "Object"} {
		s := m.E.Start(fn, []flow.Val{m.S, tail})
		assume := func(c flow.Cond) {
			if !s.F.Assume(c) {
				bail("contradictory assumptions")
			}
		}
		assume(ge(m.TI, flow.C(0)))
		assume(ge(tail.Len, flow.C(1)))
		assume(eq(m.tok(s, m.TI, "Type"), flow.C(m.kinds[k])))
		if k == "Array" || k == "Object" {
			end, n := m.tok(s, m.TI, "End"), m.tok(s, m.TI, "Elements")
			assume(ge(n, flow.C(0)))
			per := int64(1)
			if k == "Object" {
				per = 2
			}
			assume(ge(end, m.TI.Add(n, per).AddC(1)))
			assume(ge(m.Tokens.Len, end.AddC(1)))
		}
		start := s.Clone()
		var outs []*flow.Outcome
		m.curK, m.curE = k, "Any"
		m.watch(start, rep, func() { outs = m.E.Explore(s) })
		m.check(k, "Any", start, outs, rep, func(v *V) { v.anyValue() })
	}
}

// decodesAny tells whether a function decodes a value of any kind into an
// interface: functions of that kind that only such ones call are parts of them.
func (m *Model) decodesAny(fn *ssa.Function) bool {
	if m.anyFns == nil {
		m.anyFns = map[*ssa.Function]bool{}
		for _, g := range m.P.AllFuncs() {
			if isDecodeAny(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && isDecodeAny(f) {
							m.anyFns[f] = true
						}
					}
				}
			}
		}
	}
	return isDecodeAny(fn) && m.anyFns[fn]
}

// decodeAnyFn finds the function for the kind of input.
func (m *Model) decodeAnyFn() *ssa.Function {
	for _, fn := range m.P.AllFuncs() {
		if !m.decodesAny(fn) || load.IsGeneric(fn) || len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}
		if types.Identical(fn.Signature.Params().At(0).Type(), m.Decode.Signature.Params().At(0).Type()) {
			return fn
		}
	}
	return nil
}

func (v *V) anyValue() {
	v.wellFormed()
	m := v.m
	if v.o.Kind != flow.OReturn || len(v.o.Ret) != 3 {
		v.unsure("any", "unexpected end")
		return
	}
	v.copyCheck(&flow.Entry{Pos: m.decodeAnyFn().Pos()}, "the value", v.o.Ret[0])
	er, ok := v.o.Ret[2].(flow.Iface)
	if !ok {
		v.unsure("any", "the error isn't known")
		return
	}
	raw := v.raw(m.TI, 0)
	switch v.k {
	case "Null":
		v.anyIs(er, []flow.Val{flow.Iface{}}, m.TI.AddC(1))
	case "True", "False":
		v.anyIs(er, []flow.Val{flow.Iface{T: types.Typ[types.Bool], V: boolCond(v.k == "True")}}, m.TI.AddC(1))
	case "String":
		v.anyIs(er, []flow.Val{flow.Iface{T: types.Typ[types.String], V: v.unescaped(v.raw(m.TI, 1))}}, m.TI.AddC(1))
	case "Integer", "Number":
		r := v.parseFloat(raw, 64, v.k == "Integer")
		if r.errs != nil {
			v.ok("any")
			if v.decide(flow.Cond{Op: flow.NE, L: er.TW}) != 1 {
				v.fail("any", "no error is returned although the number is out of range")
			}
			return
		}
		for i := range r.vals {
			r.vals[i] = flow.Iface{T: types.Typ[types.Float64], V: r.vals[i]}
		}
		v.anyIs(er, r.vals, m.TI.AddC(1))
	case "Array":
		v.anyArray(er)
	case "Object":
		v.anyObject(er)
	}
}

// anyIs expects a value to be returned with the tokens after it.
func (v *V) anyIs(er flow.Iface, vals []flow.Val, next flow.Lin) {
	v.anyNext(er, next)
	v.oneOf("any", v.o.Ret[0], vals)
	for _, en := range v.effects() {
		if en.Kind == flow.ELoop {
			v.unsure("any", "an unexpected loop")
		} else {
			v.failAt(en, "any", "an unexpected effect")
		}
	}
}

func (v *V) anyNext(er flow.Iface, next flow.Lin) {
	v.ok("any")
	if v.decide(flow.Cond{Op: flow.EQ, L: er.TW}) != 1 {
		v.fail("any", "the error is %s instead of nil", flow.Show(er))
		v.done()
	}
	sl, ok := v.o.Ret[1].(flow.Sl)
	if !ok {
		v.unsure("any", "the tokens after the value aren't known")
		v.done()
	}
	v.must("any", v.same(sl.Ptr, v.m.Tokens.Ptr.Add(next, v.m.TS)), "the next token is at %s instead of %s", flow.Show(sl.Ptr), flow.Show(v.m.Tokens.Ptr.Add(next, v.m.TS)))
}

// anyLoop is the loop over the values within. It returns the cursor.
func (v *V) anyLoop() (en *flow.Entry, cur flow.Lin, comp int) {
	for _, x := range v.ents {
		if x.Kind != flow.ELoop {
			continue
		}
		for i, c := range x.Loop.Comps {
			if c.Kind != flow.Cur || i > 0 && x.Loop.Comps[i-1].Phi == c.Phi {
				continue
			}
			if idx, ok := v.m.tokIndex(v.s, c.Val.(flow.Lin)); ok {
				if en != nil {
					v.unsure("any", "several loops go through the tokens")
					v.done()
				}
				en, cur, comp = x, idx, i
			}
		}
	}
	return
}

// anyError is the error of a value within.
func (v *V) anyError(t flow.Lin) flow.Iface {
	app := v.m.E.App("decodeAny", nil, v.m.E.ToStr(v.m.S), t)
	return v.m.E.AppVal(v.m.E.App("any error", nil, app), errorT).(flow.Iface)
}

// anyWithin is what arrays and objects have in common: the loop over the values
// within, if there's one on the path, and whether it ends with an error. off is the
// distance of the value from the cursor.
func (v *V) anyWithin(er flow.Iface, off int64, each func(w *V, en *flow.Entry, b *flow.Back, cur flow.Lin)) (en *flow.Entry, failed bool) {
	m := v.m
	en, cur, comp := v.anyLoop()
	if en == nil {
		for _, x := range v.ents {
			if x.Kind != flow.ELoop {
				continue
			}
			v.claimed = append(v.claimed, x)
			for _, b := range x.Loop.Backs {
				v.each(x, b, func(w *V) {
					for _, t := range w.pathTerms("any error") {
						e := m.E.AppVal(t, errorT).(flow.Iface)
						if w.decide(flow.Cond{Op: flow.NE, L: e.TW}) == 1 {
							w.fail("any", "the error of a value within is ignored")
							return
						}
					}
				})
			}
			if !v.failed {
				v.unsure("any", "a loop that doesn't go through the tokens")
			}
			v.done()
		}
		return nil, false
	}
	first, _ := m.tokIndex(v.s, en.Loop.Comps[comp].Init.(flow.Lin))
	v.claimed = append(v.claimed, en)
	v.must("any", v.same(first, m.TI.AddC(1)), "the first value within is looked for at %s", flow.Show(first))
	n := 0
	for _, b := range en.Loop.Backs {
		v.each(en, b, func(w *V) {
			n++
			// What's at the cursor isn't the end: it's a value, or a key.
			t := cur.AddC(off)
			if w.decide(eq(w.tok(cur, "Type"), flow.C(m.kinds[v.k+"End"]))) == 1 {
				w.ok("any")
				w.fail("any", "goes on after the end")
				return
			}
			e := w.anyError(t)
			w.ok("any")
			if w.decide(flow.Cond{Op: flow.EQ, L: e.TW}) != 1 {
				w.fail("any", "a value within isn't decoded, or its error is ignored")
				return
			}
			_, d, ok := en.Loop.Cursor(comp, b)
			if !ok {
				w.unsure("any", "the next value isn't known")
				return
			}
			next := first.Add(w.s.F.Norm(d), 1)
			w.must("any", w.same(next, w.valueEnd(t)), "the next value is looked for at %s instead of %s", flow.Show(next), flow.Show(w.valueEnd(t)))
			each(w, en, b, cur)
		})
	}
	v.ok("any")
	if n == 0 {
		v.fail("any", "there are no values within")
		v.done()
	}
	// How the loop ends.
	if v.decide(eq(v.tok(cur, "Type"), flow.C(m.kinds[v.k+"End"]))) == 1 {
		v.assume(eq(cur, v.tok(m.TI, "End")))
		return en, false
	}
	t := cur.AddC(off)
	e := v.anyError(t)
	if v.decide(flow.Cond{Op: flow.NE, L: e.TW}) == 1 {
		v.must("any", v.same(er, e), "the error is %s instead of that of the value within", flow.Show(er))
		return en, true
	}
	if v.decide(ge(flow.A(en.Loop.N), v.tok(m.TI, "Elements"))) == 1 {
		v.assume(eq(cur, v.tok(m.TI, "End")))
		return en, false
	}
	v.fail("any", "not all of the values within are decoded")
	v.done()
	return
}

// valueEnd is the index of the token after a value.
func (v *V) valueEnd(t flow.Lin) flow.Lin {
	if v.kindIs(t, "Array", "Object") {
		return v.tok(t, "End").AddC(1)
	}
	return t.AddC(1)
}

func (v *V) anyVal(t flow.Lin) flow.Val {
	return v.m.E.AppVal(v.m.E.App("any value", nil, v.m.E.ToStr(v.m.S), t), fieldlessAny)
}

// onlyEvents expects no other effects than the events.
func (v *V) onlyEvents(ok ...*flow.Entry) {
	for _, en := range v.effects() {
		known := en.Kind == flow.EStore
		for _, x := range ok {
			known = known || x == en
		}
		if !known {
			v.unsure("any", "an unknown effect")
		}
	}
}

func (v *V) anyArray(er flow.Iface) {
	m := v.m
	type appended struct {
		en   *flow.Entry
		to   flow.Sl
		next flow.Val
	}
	var last *appended
	var elem flow.Lin
	en, failed := v.anyWithin(er, 0, func(w *V, en *flow.Entry, b *flow.Back, cur flow.Lin) {
		var found []*appended
		for _, x := range w.ents {
			if x.Kind == flow.EEvent && x.Ev.Name == "append" {
				to, ok := x.Ev.Args[0].(flow.Sl)
				a, ok2 := x.Ev.Args[1].(flow.Agg)
				if !ok || !ok2 || len(a.F) != 1 {
					continue
				}
				w.must("any", w.same(a.F[0], w.anyVal(cur)), "the element is %s instead of %s", flow.Show(a.F[0]), flow.Show(w.anyVal(cur)))
				found = append(found, &appended{x, to, x.Ev.Res})
			}
		}
		w.onlyEvents()
		if len(found) > 1 {
			w.unsure("any", "how the element is added isn't known")
			return
		}
		if len(found) == 1 {
			last = found[0]
		}
		elem = cur
	})
	if failed {
		return
	}
	v.anyNext(er, v.tok(m.TI, "End").AddC(1))
	got, ok := v.o.Ret[0].(flow.Iface)
	sl, ok2 := got.V.(flow.Sl)
	if !ok || got.T == nil || !types.Identical(got.T, types.NewSlice(fieldlessAny)) {
		v.fail("any", "the value is %s instead of a []any", flow.Show(v.o.Ret[0]))
		return
	}
	if !ok2 {
		v.unsure("any", "the elements aren't known")
		return
	}
	n := v.tok(m.TI, "Elements")
	if en == nil {
		v.ok("any")
		if v.decide(ge(flow.C(0), n)) != 1 {
			v.fail("any", "the values within are ignored")
			return
		}
		v.must("any", v.same(sl.Len, flow.C(0)), "there are %s elements instead of none", flow.Show(sl.Len))
		v.must("any", v.decide(flow.Cond{Op: flow.NE, L: sl.Ptr}), "an empty array is decoded to nil")
		return
	}
	// The elements are stored in a slice that has their number.
	if b := flow.Base(sl.Ptr); last == nil && b != nil && b.Op == "app" && b.Name == "makeslice" && v.same1(sl.Ptr, flow.A(b)) {
		v.must("any", v.same(sl.Len, n), "there are %s elements instead of %s", flow.Show(sl.Len), flow.Show(n))
		size := m.E.Sizes.Sizeof(fieldlessAny)
		var addr flow.Lin
		for _, bk := range en.Loop.Backs {
			v.each(en, bk, func(w *V) {
				stores := 0
				for _, x := range w.ents {
					if x.Kind == flow.EStore && x.Pos.IsValid() && flow.Base(x.Addr) == b {
						stores++
						addr = x.Addr
					}
				}
				w.ok("any")
				if stores == 0 {
					w.fail("any", "the element isn't stored")
					return
				}
				at := sl.Ptr.Add(flow.A(en.Loop.N), size)
				if w.decide(eq(addr, at)) == 0 {
					known := true
					for _, t := range w.s.F.Norm(addr.Add(at, -1)).T {
						known = known && (t.A == en.Loop.N || w.same1(flow.A(t.A), n))
					}
					if known {
						w.fail("any", "the element is stored at %s instead of %s", flow.Show(addr), flow.Show(at))
						return
					}
					w.unsure("any", "the element is stored at %s", flow.Show(addr))
					return
				}
				got := m.E.Load(w.s, at, fieldlessAny)
				w.must("any", w.same(got, w.anyVal(elem)), "the element is %s instead of %s", flow.Show(got), flow.Show(w.anyVal(elem)))
			})
		}
		return
	}
	// The slice is a variable of the loop.
	for i, c := range en.Loop.Comps {
		if i+1 >= len(en.Loop.Comps) || en.Loop.Comps[i+1].Phi != c.Phi || c.Sym == nil || c.Kind != flow.Gen || v.same(sl.Ptr, flow.A(c.Sym)) != 1 {
			continue
		}
		l := en.Loop.Comps[i+1]
		v.must("any", v.same(l.Init, flow.C(0)), "there are %s elements to begin with", flow.Show(l.Init))
		v.must("any", v.same(sl.Len, l.Val), "there are %s elements instead of %s", flow.Show(sl.Len), flow.Show(l.Val))
		if v.decide(flow.Cond{Op: flow.NE, L: lin(c.Init)}) != 1 && v.decide(ge(n, flow.C(1))) != 1 {
			v.ok("any")
			v.fail("any", "an empty array is decoded to nil")
		}
		for _, b := range en.Loop.Backs {
			v.each(en, b, func(w *V) {
				if last == nil {
					w.unsure("any", "how the element is added isn't known")
					return
				}
				w.must("any", b2i(w.same1(last.to.Ptr, flow.A(c.Sym)) && w.same1(last.to.Len, l.Val)), "the element is added to %s", flow.Show(last.to))
				w.must("any", w.same(b.Next[i], last.next), "the elements are lost")
				w.must("any", w.same(b.Next[i+1], last.to.Len.AddC(1)), "the number of elements becomes %s", flow.Show(b.Next[i+1]))
			})
		}
		return
	}
	v.unsure("any", "the elements aren't known")
}

func (v *V) anyObject(er flow.Iface) {
	m := v.m
	var maps []flow.Val
	en, failed := v.anyWithin(er, 1, func(w *V, en *flow.Entry, b *flow.Back, cur flow.Lin) {
		var sets []*flow.Entry
		for _, x := range w.ents {
			if x.Kind == flow.EEvent && x.Ev.Name == "mapupdate" {
				sets = append(sets, x)
			}
		}
		w.onlyEvents(sets...)
		w.ok("any")
		if len(sets) != 1 {
			w.fail("any", "the member is added %d times", len(sets))
			return
		}
		a := sets[0].Ev.Args
		maps = append(maps, a[0])
		w.copyCheck(sets[0], "the key", a[1])
		key := w.unescaped(w.raw(cur, 1))
		w.must("any", w.same(m.E.ToStr(a[1]), key), "the key is %s instead of %s", flow.Show(a[1]), flow.Show(key))
		val := w.anyVal(cur.AddC(1))
		w.must("any", w.same(a[2], val), "the value of the member is %s instead of %s", flow.Show(a[2]), flow.Show(val))
	})
	if failed {
		return
	}
	v.anyNext(er, v.tok(m.TI, "End").AddC(1))
	got, ok := v.o.Ret[0].(flow.Iface)
	want := types.NewMap(types.Typ[types.String], fieldlessAny)
	if !ok || got.T == nil || !types.Identical(got.T, want) {
		v.fail("any", "the value is %s instead of a map[string]any", flow.Show(v.o.Ret[0]))
		return
	}
	made := false
	for _, x := range v.ents {
		if x.Kind == flow.EEvent && x.Ev.Name == "makemap" && v.same(x.Ev.Res, got.V) == 1 {
			made = true
		}
	}
	v.must("any", b2i(made), "the map is %s instead of a new one", flow.Show(got.V))
	if en == nil {
		v.ok("any")
		if v.decide(ge(flow.C(0), v.tok(m.TI, "Elements"))) != 1 {
			v.fail("any", "the members are ignored")
		}
		v.onlyEvents()
		return
	}
	for _, x := range maps {
		v.must("any", v.same(x, got.V), "the member is added to %s", flow.Show(x))
	}
}
