package decode

import (
	"go/types"

	"jscheck/flow"
)

// object expects that an object is decoded.
func (v *V) object() {
	ti, si := v.m.TI, v.m.SI
	n := v.tok(ti, "Elements")
	one := flow.C(1)
	switch v.e {
	case "EmptyStruct":
		v.valEnd(si, v.tok(ti, "End").AddC(1))
	case "Any":
		v.anyComposite()
	case "PtrRecur":
		v.ptrRecur()
	case "Map", "MapRecur":
		v.initMap()
		if !v.req(ge(n, one)) {
			v.valEnd(si, ti.AddC(2))
			return
		}
		v.wantNext(ti.AddC(1), &si)
	case "MapStringString":
		v.mapStringString()
	case "Struct", "StructRecur":
		if !v.req(ge(n, one)) {
			if v.e == "StructRecur" {
				v.recEnd(si, ti.AddC(2))
			} else {
				v.valEnd(si, ti.AddC(2))
			}
			return
		}
		v.setFields(si, v.p())
		v.wantNext(ti.AddC(1), &si)
	default:
		v.mismatch()
	}
}

// ptrRecur expects that an object is decoded into the target of a pointer to a
// recursive struct.
func (v *V) ptrRecur() {
	m := v.m
	ti, si := m.TI, m.SI
	ptrT := types.Typ[types.UnsafePointer]
	p := v.p()
	old := lin(m.E.Load(v.s0, p, ptrT))
	if v.o.Kind != flow.OCut {
		v.wantNext(ti.AddC(1), nil)
		return
	}
	f := v.recurse("enter", si)
	v.allowed(p, ptrT)
	got := lin(v.final(p, ptrT))
	if v.req(eq(old, flow.C(0))) {
		v.newValue(got, f, "pointer")
	} else {
		v.must("pointer", v.same(got, old), "the pointer is set to %s although it isn't nil", flow.Show(got))
	}
	if !v.req(ge(v.tok(ti, "Elements"), flow.C(1))) {
		v.recEnd(f, ti.AddC(2))
		return
	}
	v.setFrame(f, "Dest", got, "pointer")
	v.setFrame(f, "Offset", v.cur(f, "Offset"), "pointer")
	v.setFields(f, got)
	v.wantNext(ti.AddC(1), &f)
}

// initMap expects that the map isn't nil.
func (v *V) initMap() flow.Lin {
	m := v.m
	var ptrT types.Type = types.Typ[types.UnsafePointer]
	if v.e == "MapStringString" {
		ptrT = types.NewMap(types.Typ[types.String], types.Typ[types.String])
		for _, t := range v.pathLoads(v.p()) {
			if _, ok := t.(*types.Map); !ok {
				ptrT = types.Typ[types.UnsafePointer]
			}
		}
	}
	p := v.p()
	old := lin(m.E.Load(v.s0, p, ptrT))
	v.allowed(p, ptrT)
	if v.o.Kind != flow.OCut {
		return old
	}
	got := lin(v.final(p, ptrT))
	if !v.req(eq(old, flow.C(0))) {
		v.must("map", v.same(got, old), "the map is replaced by %s", flow.Show(got))
		return got
	}
	v.ok("map")
	for _, en := range v.ents {
		if en.Kind == flow.EEvent && en.Ev.Name == "makemap" && v.same1(en.Ev.Res, got) {
			v.use(en)
			if len(en.Ev.Args) > 1 && !v.same1(en.Ev.Args[0], v.f(m.SI, "Typ")) {
				v.failAt(en, "map", "the map is made for %s", flow.Show(en.Ev.Args[0]))
			}
			return got
		}
	}
	v.fail("map", "the nil map isn't replaced by a new one but by %s", flow.Show(got))
	return got
}

// pathLoads returns the types a word is read as.
func (v *V) pathLoads(addr flow.Lin) []types.Type {
	var out []types.Type
	for _, h := range v.o.S.F.Hist[len(v.start.F.Hist):] {
		flow.Visit(h, func(t *flow.Term) {
			if t.Op == "load" && v.same1(t.Addr, addr) {
				out = append(out, t.Typ)
			}
		})
	}
	return out
}

func (v *V) fields(f flow.Lin) flow.Sl { return v.m.fr(v.s0, f, "Fields").(flow.Sl) }

// fieldFrame is the index of the frame of the j-th field.
func (v *V) fieldAddr(fs flow.Sl, j flow.Lin, name string) (flow.Lin, types.Type) {
	st, sz := v.m.fieldStruct()
	return fs.Ptr.Add(j, sz).AddC(v.m.Off(st, name)), fieldType(st, name)
}

func (m *Model) fieldStruct() (*types.Struct, int64) {
	t := fieldType(m.Frame, "Fields").Underlying().(*types.Slice).Elem()
	return t.Underlying().(*types.Struct), m.E.Sizes.Sizeof(t)
}

// setFields expects that the frames of all fields refer to the struct.
func (v *V) setFields(f, dest flow.Lin) {
	if v.o.Kind != flow.OCut {
		return
	}
	fs := v.fields(f)
	v.ok("fields")
	for _, en := range v.unusedLoops() {
		has := false
		for _, b := range en.Loop.Backs {
			for _, x := range b.Entries {
				has = has || x.Kind == flow.EStore && x.Pos.IsValid() && v.region(x) == "frames"
			}
		}
		if !has {
			continue
		}
		r := en.Loop
		up, down := flow.A(r.N), fs.Len.AddC(-1).Add(flow.A(r.N), -1)
		for _, j := range []flow.Lin{up, down} {
			good := true
			for _, b := range r.Backs {
				v.each(en, b, func(w *V) {
					fx := w.effects()
					a, t := w.fieldAddr(fs, j, "FrameIndex")
					fr := lin(v.m.E.Load(v.s0.WithFacts(w.s.F), a, t))
					if len(fx) != 1 || fx[0].Kind != flow.EStore || !w.same1(fx[0].Addr, v.m.frameAddr(fr, "Dest")) {
						good = false
						return
					}
				})
			}
			if !good {
				continue
			}
			v.use(en)
			v.fieldLoop = en
			for _, b := range r.Backs {
				v.each(en, b, func(w *V) {
					x := w.effects()[0]
					w.must("fields", w.same(x.Val, dest), "the frame of a field refers to %s instead of %s", flow.Show(x.Val), flow.Show(dest))
				})
			}
			v.must("fields", v.decide(ge(flow.A(r.N), fs.Len)), "not every field's frame refers to the struct")
			return
		}
	}
	if v.decide(eq(fs.Len, flow.C(0))) == 1 {
		return
	}
	if len(v.unusedLoops()) > 0 {
		v.unsure("fields", "the loop over the fields isn't known")
		return
	}
	v.fail("fields", "the frames of the fields don't refer to the struct")
}

// mapStringString expects that the members of an object are added to a map.
func (v *V) mapStringString() {
	m := v.m
	ti, si := m.TI, m.SI
	n, end := v.tok(ti, "Elements"), v.tok(ti, "End")
	mp := v.initMap()
	if !v.req(ge(n, flow.C(1))) {
		v.valEnd(si, ti.AddC(2))
		return
	}
	var loop *flow.Entry
	for _, en := range v.unusedLoops() {
		if len(en.Loop.Backs) > 0 {
			all := true
			for _, b := range en.Loop.Backs {
				has := false
				for _, x := range b.Entries {
					has = has || x.Kind == flow.EEvent && x.Ev.Name == "mapupdate"
				}
				all = all && has
			}
			if all {
				loop = en
				break
			}
		}
	}
	if loop == nil {
		v.ok("member")
		other := false
		for _, en := range v.unusedLoops() {
			other = other || !v.endLoop(en)
		}
		if other {
			v.unsure("member", "the loop over the members isn't found")
		} else {
			v.fail("member", "the members aren't decoded")
		}
		v.done()
	}
	r := loop.Loop
	key := ti.AddC(1).Add(flow.A(r.N), 2)
	val := key.AddC(1)
	member := func(w *V) result {
		w.also = "value"
		if w.kindIs(val, "Null") {
			w.also = "null"
			return result{vals: []flow.Val{flow.Str{}}}
		}
		if w.kindIs(val, "String") {
			return result{vals: []flow.Val{w.unescaped(w.raw(val, 1))}}
		}
		return w.invalid("only strings can be decoded into the value", "ErrUnexpectedValue")
	}
	v.use(loop)
	// The members before were single values, so there's a key or the end here.
	v.assume(ge(end, key))
	for _, b := range r.Backs {
		v.each(loop, b, func(w *V) {
			res := member(w)
			if res.errs != nil {
				w.ok("accept")
				w.fail("accept", "a member is accepted although %s", res.why)
				return
			}
			fx := w.effects()
			if len(fx) != 1 || fx[0].Kind != flow.EEvent || fx[0].Ev.Name != "mapupdate" {
				w.unsure("member", "decoding a member has other effects")
				return
			}
			a := fx[0].Ev.Args
			if v.o.Kind == flow.OCut {
				w.must("member", w.same(a[0], mp), "the member is added to %s", flow.Show(a[0]))
			}
			k := w.unescaped(w.raw(key, 1))
			w.must("key", w.same(m.E.ToStr(a[1]), k), "the key is %s instead of %s", flow.Show(a[1]), flow.Show(k))
			w.must("value", w.same(m.E.ToStr(a[2]), res.vals[0]), "the value is %s instead of %s", flow.Show(a[2]), flow.Show(res.vals[0]))
			w.noAlias(fx[0], a[1], a[2])
		})
	}
	if v.o.Kind != flow.OCut {
		if v.decide(ge(end.AddC(-1), key)) == 1 || v.decide(eq(end, key)) == -1 || v.decide(ge(n.AddC(-1), flow.A(r.N))) == 1 {
			if res := member(v); res.errs != nil {
				v.wantErr(val, res.why, res.errs...)
				return
			}
		}
		v.wantNext(end.AddC(1), nil)
		return
	}
	// All values were single tokens.
	v.assume(eq(end, ti.AddC(1).Add(n, 2)))
	v.must("member", v.decide(eq(flow.A(r.N), n)), "not all members are decoded")
	v.valEnd(si, end.AddC(1))
}

// noAlias checks that values don't refer to a []byte input.
func (v *V) noAlias(en *flow.Entry, vals ...flow.Val) {
	for _, x := range vals {
		v.aliasCheck(&flow.Entry{Kind: flow.EStore, Val: x, Pos: en.Pos})
	}
}

// key expects that the value of a key is decoded next.
func (v *V) key() {
	switch v.e {
	case "Struct", "StructRecur":
		v.fieldKey()
	case "Map", "MapRecur":
		v.mapKey()
	default:
		v.mismatch()
	}
}

// mapKey expects that the value of a key is decoded into the map.
func (v *V) mapKey() {
	m := v.m
	ti, si := m.TI, m.SI
	kf := si.AddC(1)
	raw := v.raw(ti, 1)
	ptrT := types.Typ[types.UnsafePointer]
	pMap := lin(m.E.Load(v.s0, v.p(), ptrT))
	var keyVal flow.Val // expected value of the key
	var keyT types.Type
	var keyPtr flow.Val // expected address of the key
	switch {
	case v.typeIs(kf, "TextUnmarshaler"):
		rt := v.rtype(kf)
		var nv flow.Val
		for _, en := range v.ents {
			if en.Kind == flow.EEvent && en.Ev.Name == "reflect.New" && v.same(en.Ev.Args[0], rt) == 1 {
				nv = en.Ev.Res
				v.use(en)
				break
			}
		}
		v.ok("key")
		if nv == nil {
			v.fail("key", "no new key is made")
			v.done()
		}
		p := v.apps("reflect.Value.UnsafePointer", ptrT, nv).(flow.Lin)
		er := v.unmarshal("UnmarshalText", rt, p, v.isPointerType(kf), v.unescaped(raw))
		if !v.req(flow.Cond{Op: flow.EQ, L: er.TW}) {
			v.wantErr(ti, "the unmarshaler returned an error", er)
			return
		}
		keyPtr = p
	case v.typeIs(kf, "Str"):
		keyVal, keyT = v.unescaped(raw), types.Typ[types.String]
	default:
		found := false
		for n := range ints {
			it, _ := m.intOf(n)
			if v.typeMaybe(kf, n) == 1 {
				found = v.intKey(n, it, raw, &keyVal)
				keyT = it.t
			}
		}
		if keyT == nil {
			// No type of key is known.
			for _, n := range sortedInts {
				if v.typeIs(kf, n) {
					it, _ := m.intOf(n)
					found = v.intKey(n, it, raw, &keyVal)
					keyT = it.t
					break
				}
			}
		}
		if keyT == nil {
			v.wantErr(ti, "keys of this type aren't supported", v.global("ErrUnexpectedValue"))
			return
		}
		if !found {
			return
		}
	}
	if v.o.Kind != flow.OCut {
		v.wantNext(ti.AddC(1), nil)
		return
	}
	as := v.event("mapassign", "mapassign_faststr")
	v.ok("key")
	if as == nil {
		v.fail("key", "the key isn't inserted")
		v.done()
	}
	v.use(as)
	a := as.Ev.Args
	v.must("key", v.same(a[0], v.f(si, "Typ")), "the key is inserted into a map of type %s", flow.Show(a[0]))
	v.must("key", v.same(a[1], pMap), "the key is inserted into the map %s", flow.Show(a[1]))
	v.ok("key")
	switch {
	case as.Ev.Name == "mapassign_faststr":
		if keyT != types.Typ[types.String] {
			v.failAt(as, "key", "the key is inserted as a string")
			break
		}
		if !v.req(v.m.fr(v.s0, si, "MapCanUseAssignFaststr").(flow.Cond)) {
			v.failAt(as, "key", "mapassign_faststr is used on other maps")
		}
		if !v.same1(m.E.ToStr(a[2]), keyVal) {
			v.failAt(as, "key", "the key is %s instead of %s", flow.Show(a[2]), flow.Show(keyVal))
		}
		v.noAlias(as, a[2])
	case keyPtr != nil:
		if !v.same1(a[2], keyPtr) {
			v.failAt(as, "key", "the key isn't the one unmarshaled but %s", flow.Show(a[2]))
		}
		for _, en := range v.ents {
			if en == as {
				v.failAt(as, "key", "the key is inserted before it's unmarshaled")
			}
			if en.Kind == flow.EEvent && en.Ev.Name == "invoke.UnmarshalText" {
				break
			}
		}
	default:
		b := flow.Base(lin(a[2]))
		if b == nil || b.Op != "alloc" || !v.same1(a[2], flow.A(b)) {
			v.failAt(as, "key", "the key is at an unknown address")
			break
		}
		got := a[3]
		if el := b.Typ.Underlying().(*types.Pointer).Elem(); !sameKind(el, keyT) {
			if m.E.Sizes.Sizeof(el) < m.E.Sizes.Sizeof(keyT) {
				v.failAt(as, "key", "the key is a %s instead of a %s", el, keyT)
				break
			}
			// The variable is another view of the key.
			got = m.E.Load(v.s.Before(as), flow.A(b), keyT)
		}
		if s, ok := keyVal.(flow.Str); ok {
			if !v.same1(m.E.ToStr(got), s) {
				v.failAt(as, "key", "the key is %s instead of %s", flow.Show(got), flow.Show(s))
			}
			v.noAlias(as, got)
			break
		}
		if !v.same1(got, keyVal) && !v.same1(stripConv(got), keyVal) {
			v.failAt(as, "key", "the key is %s instead of %s", flow.Show(got), flow.Show(keyVal))
		}
	}
	cell := lin(as.Ev.Res)
	f := si.AddC(2)
	if v.e == "MapRecur" {
		f = v.recurse("enter", si)
		v.setFrame(f, "Offset", v.cur(f, "Offset"), "key")
	}
	v.setFrame(f, "Dest", cell, "mapvalue")
	var clr *flow.Entry
	for _, en := range v.ents {
		if en.Kind == flow.EEvent && en.Ev.Name == "typedmemclr" && !v.used[en] {
			clr = en
			break
		}
	}
	v.ok("mapreplace")
	if clr != nil {
		v.use(clr)
		if !v.same1(clr.Ev.Args[1], cell) || !v.same1(clr.Ev.Args[0], v.f(si, "MapValueType")) {
			v.failAt(clr, "mapreplace", "other memory than the map's value is cleared")
		}
	} else if v.typeIs(f, mayRetain...) {
		v.fail("mapreplace", "the previous value of the key isn't replaced")
	}
	v.wantNext(ti.AddC(1), &f)
}

func sameKind(a, b types.Type) bool { return types.Identical(a.Underlying(), b.Underlying()) }

var sortedInts = []string{"Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64"}

// intKey is the value of a key that's an integer.
func (v *V) intKey(n string, it intType, raw flow.Str, out *flow.Val) bool {
	res := v.quotedInt(raw, it)
	if res.errs != nil {
		v.wantErr(v.m.TI, res.why, res.errs...)
		return false
	}
	*out = res.vals[0]
	return true
}

// --- fields of structs ---

// cmp is a comparison of a field's name.
type cmp struct {
	j    flow.Lin // index of the field
	fold bool     // ignoring the case
	key  bool     // with the key
	neg  bool     // it's unequal
}

// comparisons returns the comparisons of names a list of conditions consists of.
func (v *V) comparisons(f *flow.Facts, hist []flow.Cond, fs flow.Sl, key flow.Str) []cmp {
	m := v.m
	w := v.with(&flow.State{F: f})
	w.s = v.s.WithFacts(f)
	_, sz := m.fieldStruct()
	st, _ := m.fieldStruct()
	off := m.Off(st, "Name")
	index := func(p flow.Lin, o int64) (flow.Lin, bool) {
		if len(p.T) != 1 || p.C != 0 || p.T[0].K != 1 || p.T[0].A.Op != "load" {
			return flow.Lin{}, false
		}
		a := p.T[0].A.Addr
		if a.Coef(fs.Ptr.T[0].A) != 1 {
			return flow.Lin{}, false
		}
		return divLin(a.Add(fs.Ptr, -1).AddC(-off-o), sz)
	}
	var out []cmp
	for _, h := range hist {
		switch h.Op {
		case flow.IS, flow.NOT:
			t := h.T
			if t.Op != "app" || t.Name != "eqstr" && t.Name != "EqualFold" {
				continue
			}
			for i := 0; i < 2; i++ {
				x, ok := t.Args[i].(flow.Str)
				y, ok2 := t.Args[1-i].(flow.Str)
				if !ok || !ok2 {
					continue
				}
				if j, ok := index(x.Ptr, 0); ok {
					out = append(out, cmp{j, t.Name == "EqualFold", w.same1(y, key), h.Op == flow.NOT})
				}
			}
		case flow.NE:
			// Different lengths.
			for _, t := range h.L.T {
				if t.K != 1 && t.K != -1 {
					continue
				}
				j, ok := index(flow.A(t.A), w.m.E.Word())
				if !ok {
					continue
				}
				rest := h.L.Mul(t.K).Add(flow.A(t.A), -1).Neg()
				k := w.same1(rest, key.Len)
				out = append(out, cmp{j, false, k, true}, cmp{j, true, k, true})
			}
		}
	}
	// Strings that differ in case differ.
	for _, c := range out {
		if c.fold && c.neg {
			out = append(out, cmp{c.j, false, c.key, true})
		}
	}
	return out
}

type span struct{ from, to flow.Lin }

// excluded returns the ranges of fields whose names are known to be different
// from the key.
func (v *V) excluded(fs flow.Sl, key flow.Str, fold bool) []span {
	var out []span
	for _, c := range v.comparisons(v.s.F, v.o.S.F.Hist, fs, key) {
		if c.neg && c.key && c.fold == fold {
			out = append(out, span{c.j, c.j.AddC(1)})
		}
	}
	for _, en := range v.ents {
		if en.Kind != flow.ELoop || len(en.Loop.Backs) == 0 {
			continue
		}
		r := en.Loop
		compares := false
		var pts []flow.Lin
		for i, b := range r.Backs {
			var mine []flow.Lin
			for _, c := range v.comparisons(b.S.F, b.Hist, fs, key) {
				compares = true
				if c.neg && c.key && c.fold == fold {
					mine = append(mine, c.j)
				}
			}
			if i == 0 {
				pts = mine
				continue
			}
			var both []flow.Lin
			for _, p := range pts {
				for _, q := range mine {
					if p.Eq(q) {
						both = append(both, p)
						break
					}
				}
			}
			pts = both
		}
		if compares && !v.used[en] {
			pure := true
			for _, b := range r.Backs {
				for _, x := range b.Entries {
					if x.Kind == flow.EEvent || x.Kind == flow.EStore && x.Pos.IsValid() && v.region(x) != "local" {
						pure = false
					}
				}
			}
			if pure {
				v.use(en)
				v.compares[en] = true
			}
		}
		for _, p := range pts {
			k := p.Coef(r.N)
			if k == 0 {
				continue
			}
			base := p.Subst(r.N, flow.C(0))
			full := true
			if k < 0 {
				full = k == -1
			}
			for c := int64(1); c < k && full; c++ {
				has := false
				for _, q := range pts {
					has = has || q.Eq(p.AddC(c))
				}
				full = has
			}
			if !full {
				continue
			}
			if k > 0 {
				out = append(out, span{base, base.Add(flow.A(r.N), k)})
			} else {
				out = append(out, span{base.Add(flow.A(r.N), -1).AddC(1), base.AddC(1)})
			}
		}
	}
	return out
}

// covers tells whether ranges cover [0,n).
func (v *V) covers(ss []span, n flow.Lin) bool {
	at := flow.C(0)
	for round := 0; round <= len(ss); round++ {
		if v.decide(ge(at, n)) == 1 {
			return true
		}
		moved := false
		for _, s := range ss {
			if v.decide(ge(at, s.from)) == 1 && v.decide(ge(at, s.to)) != 1 && v.decide(ge(s.to, at)) == 1 {
				at, moved = s.to, true
				break
			}
		}
		if !moved {
			break
		}
	}
	return v.decide(ge(at, n)) == 1
}

func (v *V) option(name string) bool {
	t := v.m.Opt.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	c := v.m.E.Load(v.s0, flow.A(v.m.Opt).AddC(v.m.Off(t, name)), types.Typ[types.Bool]).(flow.Cond)
	return v.req(c)
}

// fieldName is the name the field of a key has.
func (v *V) fieldName(t flow.Lin) flow.Str {
	raw := v.raw(t, 1)
	if v.option("DisableFieldNameUnescaping") {
		return raw
	}
	return v.unescaped(raw)
}

// afterValue is the token after the value of a key.
func (v *V) afterValue(t flow.Lin) flow.Lin {
	if v.kindIs(t.AddC(1), "Object", "Array") {
		return v.tok(t.AddC(1), "End").AddC(1)
	}
	return t.AddC(2)
}

// validFields assumes that the fields have frames.
func (v *V) validFields(fs flow.Sl) {
	_, sz := v.m.fieldStruct()
	for _, h := range v.o.S.F.Hist {
		flow.Visit(h, func(t *flow.Term) {
			if t.Op != "load" || t.Addr.Coef(fs.Ptr.T[0].A) != 1 {
				return
			}
			if _, ok := divLin(t.Addr.Add(fs.Ptr, -1), sz); ok && t.Typ.Underlying() == types.Typ[types.Uint32] {
				if !v.s.F.Assume(flow.Cond{Op: flow.NE, L: flow.A(t).AddC(-noParent)}) {
					infeasible()
				}
			}
		})
	}
}

// fieldKey expects that the value of a key is decoded into the field of that
// name, or skipped if there's none.
func (v *V) fieldKey() {
	m := v.m
	ti, si := m.TI, m.SI
	fs := v.fields(si)
	v.validFields(fs)
	t := ti
	// Unknown fields may be skipped in a loop.
	for _, en := range v.unusedLoops() {
		r := en.Loop
		comp := -1
		for i, c := range r.Comps {
			if c.Kind == flow.Gen && isLin(c.Init) && v.same1(c.Init, ti) && len(r.Backs) > 0 {
				comp = i
			}
		}
		if comp < 0 {
			continue
		}
		cur := flow.A(r.Comps[comp].Sym)
		good := true
		for _, b := range r.Backs {
			has := false
			w := v.with(b.S)
			for _, k := range []string{"Object", "Array"} {
				has = has || b.S.F.Decide(eq(w.tok(cur.AddC(1), "Type"), flow.C(m.kinds[k]))) != 0
			}
			good = good && has
		}
		if !good {
			continue
		}
		v.use(en)
		for _, b := range r.Backs {
			v.each(en, b, func(w *V) {
				w.validFields(fs)
				key := w.fieldName(cur)
				w.noField(fs, key)
				if w.option("DisallowUnknownFields") {
					w.ok("accept")
					w.fail("accept", "a key is skipped although unknown fields aren't allowed")
				}
				next := w.afterValue(cur)
				w.must("skip", w.same(b.Next[comp], next), "goes on with token %s instead of %s after an unknown field", flow.Show(b.Next[comp]), flow.Show(next))
				for _, x := range w.effects() {
					if x.Kind != flow.ELoop {
						w.unsure("skip", "skipping an unknown field has effects")
					}
				}
			})
		}
		t = cur
		break
	}
	key := v.fieldName(t)
	if v.o.Kind == flow.OCut {
		next, ok := v.nextOf(si).(flow.Lin)
		if j, is := v.fieldIndex(fs, next); ok && is {
			v.foundField(fs, key, j)
			v.wantNext(t.AddC(1), &next)
			return
		}
	}
	v.noField(fs, key)
	if v.option("DisallowUnknownFields") {
		v.wantErr(t, "the field isn't known", v.global("ErrUnknownField"))
		return
	}
	v.wantNext(v.afterValue(t), &si)
}

// fieldIndex is the index of the field whose frame is f.
func (v *V) fieldIndex(fs flow.Sl, f flow.Lin) (flow.Lin, bool) {
	if len(f.T) != 1 || f.C != 0 || f.T[0].K != 1 || f.T[0].A.Op != "load" {
		return flow.Lin{}, false
	}
	_, sz := v.m.fieldStruct()
	a := f.T[0].A.Addr
	if a.Coef(fs.Ptr.T[0].A) != 1 {
		return flow.Lin{}, false
	}
	return divLin(a.Add(fs.Ptr, -1), sz)
}

func (v *V) foundField(fs flow.Sl, key flow.Str, j flow.Lin) {
	v.ok("field")
	exact := v.excluded(fs, key, false)
	var fold bool
	for _, c := range v.comparisons(v.s.F, v.o.S.F.Hist, fs, key) {
		if c.neg || !c.key || !v.same1(c.j, j) {
			continue
		}
		if !c.fold {
			return // an exact match
		}
		fold = true
	}
	if !fold {
		v.fail("field", "the field isn't the one of the key's name")
		return
	}
	v.ok("field")
	if v.option("DisableCaseInsensitiveMatching") {
		v.fail("field", "the case is ignored although that's disabled")
		return
	}
	folds := v.excluded(fs, key, true)
	if !v.covers(exact, fs.Len) {
		v.fail("field", "a field is matched ignoring the case although another one may match exactly")
	}
	if !v.covers(folds, j) {
		v.fail("field", "a field is matched ignoring the case although an earlier one may match")
	}
}

// noField expects that no field matches.
func (v *V) noField(fs flow.Sl, key flow.Str) {
	v.ok("field")
	fold := !v.option("DisableCaseInsensitiveMatching")
	ss := v.excluded(fs, key, fold)
	if !v.covers(ss, fs.Len) {
		v.fail("field", "the value of a key is treated as unknown although a field may match")
	}
}
