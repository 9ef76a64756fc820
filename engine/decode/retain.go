package decode

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
	"jscheck/load"
)

// cleared decides whether memory that held pointers has none: 1 if it's swept by a
// loop, -1 if something remains, 0 if that isn't known.
func (v *V) cleared(ents []*flow.Entry, at flow.Lin, n flow.Lin, size, off int64) int {
	m := v.m
	first, last := at.AddC(off), at.Add(n.AddC(-1), size).AddC(off)
	hitsFirst, hitsLast := false, false
	var hits func(v *V, en *flow.Entry)
	hits = func(v *V, en *flow.Entry) {
		if en.Kind == flow.ELoop {
			for _, b := range en.Loop.Backs {
				v.each(en, b, func(w *V) {
					for _, x := range b.Entries {
						hits(w, x)
					}
				})
			}
			return
		}
		if !v.mayClear(en, at) {
			return
		}
		hitsFirst = hitsFirst || en.Kind != flow.EStore || v.decide(eq(en.Addr, first)) != -1
		hitsLast = hitsLast || en.Kind != flow.EStore || v.decide(eq(en.Addr, last)) != -1
	}
	for _, en := range ents {
		if x, ok := clears(en); ok && v.same1(x.Ptr, at) && v.decide(ge(x.Len, n)) == 1 {
			return 1
		}
		if en.Kind == flow.ELoop {
			all, every := v.sweep(en, n, func(w *V, i flow.Lin) bool {
				return w.same1(m.E.LoadScalar(w.s, at.Add(i, size).AddC(off), m.E.Word(), types.Typ[types.UnsafePointer]), flow.C(0))
			})
			if all {
				return 1
			}
			if every {
				return -1
			}
		}
		hits(v, en)
	}
	if !hitsFirst || !hitsLast {
		return -1
	}
	return 0
}

func clears(en *flow.Entry) (flow.Sl, bool) {
	if en.Kind != flow.EEvent || en.Ev.Name != "clear" || len(en.Ev.Args) != 1 {
		return flow.Sl{}, false
	}
	x, ok := en.Ev.Args[0].(flow.Sl)
	return x, ok
}

// mayClear tells whether an effect may reset pointers in a part of the memory.
func (v *V) mayClear(en *flow.Entry, at flow.Lin) bool {
	b := flow.Base(at)
	switch en.Kind {
	case flow.EStore:
		switch v.region(en) {
		case "frames", "decoder", "local":
			return false
		}
		x := flow.Base(en.Addr)
		if x == v.m.T {
			return false
		}
		if b != nil && x != nil && x.Op != "sym" && b != x {
			return false
		}
		l, ok := en.Val.(flow.Lin)
		return !ok || !l.IsC() || l.C == 0
	case flow.EEvent:
		return en.Ev.Name != "append"
	case flow.EHavoc:
		return true
	}
	return false
}

// usesCap tells whether the capacity of slices of a type matters anywhere, so that
// elements past their length may be looked at.
func (m *Model) usesCap(el types.Type) bool {
	of := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem().Underlying(), el.Underlying())
	}
	for _, fn := range m.P.AllFuncs() {
		if load.IsGeneric(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "cap" && of(in.Call.Args[0].Type()) {
						return true
					}
				case *ssa.Convert:
					if of(in.X.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// forgotten records whether pointers of states that are over are reset.
func (v *V) forgotten(r int, what string) {
	v.ok("retained")
	v.opaque = ""
	switch r {
	case -1:
		v.fail("retained", "the decoder keeps pointers to the destination: %s", what)
	case 0:
		v.unsure("retained", "it isn't known whether the decoder keeps pointers to the destination: %s", what)
	}
}

// leftBehind checks that leaving a recursion leaves no pointers in the memory of what's removed.
func (v *V) leftBehind(old flow.Sl, sus flow.Sl, first, n flow.Lin) {
	m := v.m
	sz := m.E.Sizes.Sizeof(m.Rec)
	if fieldIndex(m.Rec, "Dest") >= 0 {
		top := old.Ptr.Add(old.Len.AddC(-1), sz).AddC(m.Off(m.Rec, "Dest"))
		r := -1
		if v.same1(m.E.LoadScalar(v.s, top, m.E.Word(), types.Typ[types.UnsafePointer]), flow.C(0)) {
			r = 1
		} else if m.usesCap(m.Rec) {
			r = 0
		} else {
			for _, en := range v.ents {
				if en.Kind == flow.ELoop && loopHas(en.Loop, func(x *flow.Entry) bool { return v.mayClear(x, old.Ptr) }) || en.Kind != flow.ELoop && en.Kind != flow.EStore && v.mayClear(en, old.Ptr) {
					r = 0
				}
			}
		}
		v.forgotten(r, "the destination of the entry removed isn't reset")
	}
	st := m.suspendedStruct()
	if fieldIndex(st, "Dest") >= 0 {
		el := fieldType(m.Dec, "suspended").Underlying().(*types.Slice).Elem()
		ss := m.E.Sizes.Sizeof(el)
		r := v.cleared(v.ents, sus.Ptr.Add(first, ss), n, ss, m.Off(st, "Dest"))
		if r == -1 && m.usesCap(el) {
			r = 0
		}
		v.forgotten(r, "the destinations of the states restored aren't reset")
	}
}

// suspendedForgotten checks that nothing remains in the states of suspended frames.
func (v *V) suspendedForgotten(now flow.Sl) {
	m := v.m
	t := fieldType(m.Dec, "suspended")
	st := m.suspendedStruct()
	old, ok := m.E.SymVal("suspended", t).(flow.Sl)
	if !ok || fieldIndex(st, "Dest") < 0 {
		return
	}
	r := 1
	if !v.same1(now.Ptr, flow.C(0)) {
		var after []*flow.Entry
		for _, en := range v.ents {
			switch {
			case en.Kind == flow.EEvent && en.Ev.Name == "tokenize":
				after = nil
			case en.Kind != flow.EHavoc: // made by the model of the tokenizer
				after = append(after, en)
			}
		}
		r = v.cleared(after, old.Ptr, old.Len, m.E.Sizes.Sizeof(t.Underlying().(*types.Slice).Elem()), m.Off(st, "Dest"))
	}
	v.forgotten(r, "the destinations of the states suspended aren't reset")
}

// recursionForgotten decides the same for the entries of a frame's recursion.
func (w *V) recursionForgotten(i flow.Lin) int {
	m := w.m
	old := m.fr(w.first(), i, "RecursionStack").(flow.Sl)
	if fieldIndex(m.Rec, "Dest") < 0 || !w.req(ge(old.Len, flow.C(1))) {
		return 1
	}
	if now := m.fr(w.s, i, "RecursionStack").(flow.Sl); w.same1(now.Ptr, flow.C(0)) {
		return 1
	}
	return w.cleared(w.ents, old.Ptr, old.Len, m.E.Sizes.Sizeof(m.Rec), m.Off(m.Rec, "Dest"))
}
