package decode

import (
	"go/types"
	"sort"
	"strings"

	"jscheck/flow"
)

// T validates an outcome of the function that compiles types.
type T struct {
	*V
	c *Compiler
	// A variable the fields of a struct are gathered in.
	before, then *flow.Sl
}

func (t *T) str(s string) flow.Str { return t.c.E.ToStr(t.c.E.StrConst(s)) }

func (t *T) fn(name string, res types.Type, args ...flow.Val) flow.Val {
	return t.apps(name, res, args...)
}

func (t *T) typeOf(method string, x flow.Iface) flow.Iface {
	it := t.c.Fn.Params[t.c.iType].Type()
	r := t.fn(method, it, x).(flow.Iface)
	if len(r.TW.T) == 1 {
		r.TW.T[0].A.NonZero = true
	}
	return r
}

func (t *T) size(x flow.Iface) flow.Lin {
	return t.fn("invoke.Size", types.Typ[types.Uintptr], x).(flow.Lin)
}

func (t *T) num(method string, x flow.Iface) flow.Lin {
	r := t.fn(method, types.Typ[types.Int], x).(flow.Lin)
	if len(r.T) == 1 {
		r.T[0].A.NonNeg = true
	}
	return r
}

func (t *T) isKind(x flow.Iface, kinds ...string) bool {
	k := t.fn("invoke.Kind", t.c.kindT, x).(flow.Lin)
	for _, n := range kinds {
		if t.req(eq(k, flow.C(t.c.kindsOf[n]))) {
			return true
		}
	}
	return false
}

// implements tells whether the values of a type have an unmarshaler.
func (t *T) implements(x flow.Iface, iface types.Type) bool {
	j := t.c.typeTerm(iface)
	if t.req(t.fn("invoke.AssignableTo", types.Typ[types.Bool], x, j).(flow.Cond)) {
		return true
	}
	if t.isKind(x, "Pointer") {
		return false
	}
	p := t.typeOf("reflect.PointerTo", x)
	return t.req(t.fn("invoke.AssignableTo", types.Typ[types.Bool], p, j).(flow.Cond))
}

func (t *T) isJSON(x flow.Iface) bool {
	return t.implements(x, t.c.ifaceType("encoding/json", "Unmarshaler"))
}
func (t *T) isText(x flow.Iface) bool {
	return t.implements(x, t.c.ifaceType("encoding", "TextUnmarshaler"))
}

func (t *T) anyUnmarshaler(x flow.Iface) bool { return t.isJSON(x) || t.isText(x) }

func (t *T) isNumber(x flow.Iface) bool {
	return t.req(flow.Cond{Op: flow.EQ, L: x.TW.Add(t.c.typeTerm(t.c.numberT).TW, -1)})
}

func (c *Compiler) ifaceType(pkg, name string) types.Type {
	for _, imp := range c.P.Root.Pkg.Imports() {
		if imp.Path() == pkg {
			if o := imp.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	bail("%s.%s isn't imported", pkg, name)
	return nil
}

// compiles are the events on the path itself.
func (t *T) compiles() []*flow.Entry {
	var out []*flow.Entry
	for _, en := range t.ents {
		if isCompile(en) {
			out = append(out, en)
		}
	}
	return out
}

func resSl(en *flow.Entry) flow.Sl     { return en.Ev.Res.(flow.Tuple).F[0].(flow.Sl) }
func resErr(en *flow.Entry) flow.Iface { return en.Ev.Res.(flow.Tuple).F[1].(flow.Iface) }

var scalarKinds = []string{"Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Float32", "Float64"}

func (t *T) run() {
	c := t.c
	for _, en := range t.ents {
		if en.Kind == flow.ELoop && !t.hasCompile(en) && t.pureLoop(en) {
			t.claimed = append(t.claimed, en)
			// What it computes is only known once it's been understood.
			t.compares[en] = true
		}
		if en.Kind == flow.ELoop && t.hasCompile(en) {
			t.claimed = append(t.claimed, en)
		}
	}
	switch t.o.Kind {
	case flow.OStop:
		t.unsure("analysis", "%s: %s", t.o.Rule, t.o.Msg)
		return
	case flow.OPanic:
		// Interfaces with methods aren't supported.
		t.e = "Interface"
		if t.o.Rule == "panic" && t.o.S != nil && !t.isNil(c.t) && !t.anyUnmarshaler(c.t) && t.isKind(c.t, "Interface") && t.req(ge(t.num("invoke.NumMethod", c.t), flow.C(1))) {
			t.ok("type")
			return
		}
		t.ok("panic")
		t.fail("panic", "panics: %s", t.o.Msg)
		return
	case flow.OCut:
		t.unsure("analysis", "unexpected cut")
		return
	}
	tryDone(func() {
		// Types that are known have their kind.
		k := t.fn("invoke.Kind", c.kindT, c.t).(flow.Lin)
		if t.decide(flow.Cond{Op: flow.EQ, L: c.t.TW.Add(c.typeTerm(c.numberT).TW, -1)}) == 1 && t.decide(eq(k, flow.C(c.kindsOf["String"]))) == -1 {
			infeasible()
		}
		t.keepTypes()
		t.spec()
	})
}

// keepTypes assumes what the compilation of a nested type guarantees: of the frames
// there were before, only those of structs may become recursive.
func (t *T) keepTypes() {
	c := t.c
	evs := t.compiles()
	if len(evs) < 2 {
		return
	}
	var loads []*flow.Term
	for _, h := range t.o.S.F.Hist[len(t.start.F.Hist):] {
		flow.Visit(h, func(u *flow.Term) {
			if u.Op == "load" && u.Ver > 0 && flow.Base(u.Addr) == flow.Base(c.Frames) {
				loads = append(loads, u)
			}
		})
	}
	for _, u := range loads {
		idx, field, ok := c.frameOf(t.s.F, u.Addr)
		if !ok || field != "Type" {
			continue
		}
		for _, en := range evs {
			after := t.afterCompile(en)
			x, ok := c.fr(after, idx, "Type").(flow.Lin)
			n := en.Ev.Args[c.iStack].(flow.Sl).Len
			if !ok || !x.Eq(flow.A(u)) || t.decide(ge(n, idx.AddC(1))) != 1 {
				continue
			}
			old := lin(c.fr(t.s.Before(en), idx, "Type"))
			if !t.req(eq(old, flow.C(c.types["Struct"]))) || t.req(eq(x, old)) {
				t.assume(eq(x, old))
			} else {
				t.assume(eq(x, flow.C(c.types["StructRecur"])))
			}
		}
	}
}

func (t *T) isNil(x flow.Iface) bool { return t.req(flow.Cond{Op: flow.EQ, L: x.TW}) }

func (t *T) hasCompile(en *flow.Entry) bool { return loopHas(en.Loop, isCompile) }

// pureLoop tells whether a loop has no effects other than on local variables.
func (t *T) pureLoop(en *flow.Entry) bool {
	return !loopHas(en.Loop, func(x *flow.Entry) bool {
		return x.Kind == flow.EStore && x.Pos.IsValid() && t.region(x) != "local" || x.Kind == flow.EEvent || x.Kind == flow.EHavoc
	})
}

// result checks the frames returned.
func (t *T) result(n flow.Lin) {
	got, ok := t.o.Ret[0].(flow.Sl)
	if !ok {
		t.unsure("frames", "unknown frames")
		t.done()
	}
	t.must("frames", t.same(got.Ptr, t.c.Frames), "returns other frames: %s", flow.Show(got))
	t.must("frames", t.same(got.Len, n), "returns %s frames instead of %s", flow.Show(got.Len), flow.Show(n))
}

func (t *T) noError() {
	e := t.o.Ret[1].(flow.Iface)
	t.must("error", t.same(e, flow.Iface{}), "returns the error %s", flow.Show(e))
}

// frame checks all fields of the frame of the type, in the state at s for those a
// nested type may change, and at the end for the others.
func (t *T) frame(s *flow.State, typ string, want map[string]flow.Val) {
	c := t.c
	k, ok := c.types[typ]
	if !ok {
		t.unsure("type", "the constant ExpectType%s isn't found", typ)
		t.done()
	}
	t.e = typ
	got := c.fr(s, c.L, "Type").(flow.Lin)
	if !t.must("type", t.same(got, flow.C(k)), "the type of the frame is %s instead of %s", c.typeName(got), typ) {
		t.done()
	}
	for i := 0; i < c.Frame.NumFields(); i++ {
		f := c.Frame.Field(i).Name()
		at := t.s
		if f == "RecursionStack" {
			at = s
		}
		x := c.fr(at, c.L, f)
		w, given := want[f]
		switch f {
		case "Type":
			continue
		case "ParentFrameIndex":
			w = flow.C(noParent)
		case "Typ":
			w = t.dataWord(c.t)
		case "Size":
			if !given {
				w = t.size(c.t)
				if t.same(x, w) != 1 && (typ == "Any" && t.same(x, flow.C(2*c.E.Sizes.Sizeof(types.Typ[types.Uintptr]))) == 1 ||
					typ == "ArrayLen0" && t.same(x, flow.C(0)) == 1) {
					w = x
				}
			}
		case "RType":
			if !given && t.same(x, c.t) == 1 {
				w = c.t // harmless
			}
		case "RecursionStack", "Fields":
			t.must("frame", t.same(x.(flow.Sl).Len, flow.C(0)), "%s isn't empty", f)
			if f == "Fields" && typ == "Struct" {
				continue
			}
			continue
		case "MapCanUseAssignFaststr":
			if given {
				if t.req(x.(flow.Cond)) {
					key := t.typeOf("invoke.Key", c.t)
					t.ok("frame")
					if !t.isKind(key, "String") || !t.req(ge(flow.C(128), t.size(t.typeOf("invoke.Elem", c.t)))) {
						t.fail("frame", "mapassign_faststr is used for a map it isn't meant for")
					}
				}
				continue
			}
			t.must("frame", t.same(x, flow.Cond{Op: flow.False}), "%s is %s", f, flow.Show(x))
			continue
		}
		if w == nil {
			w = c.E.Zero(c.Frame.Field(i).Type())
		}
		t.must("frame", t.same(x, w), "%s of the frame is %s instead of %s", f, flow.Show(x), flow.Show(w))
	}
}

func (c *Compiler) typeName(l flow.Lin) string {
	if l.IsC() {
		if n, ok := c.Types[l.C]; ok {
			return n
		}
	}
	return flow.Show(l)
}

// dataWord is the data word of an interface, the pointer to the type of a reflect.Type.
func (t *T) dataWord(x flow.Iface) flow.Lin {
	return flow.A(t.c.E.App("dataword", fieldType(t.c.Frame, "Typ"), x))
}

// child checks that a nested type was compiled right after n frames and is linked
// to the frame of the type.
func (t *T) child(en *flow.Entry, n flow.Lin, x flow.Iface, more map[string]flow.Val) {
	c := t.c
	st := en.Ev.Args[c.iStack].(flow.Sl)
	t.must("frames", t.same(st.Ptr, c.Frames), "a nested type is appended to other frames: %s", flow.Show(st))
	t.must("frames", t.same(st.Len, n), "a nested type is appended to %s frames instead of %s", flow.Show(st.Len), flow.Show(n))
	t.must("frames", t.same(en.Ev.Args[c.iType], x), "the nested type is %s instead of %s", flow.Show(en.Ev.Args[c.iType]), flow.Show(x))
	t.must("frames", t.same(en.Ev.Args[c.iOp], c.op), "the options of a nested type are %s", flow.Show(en.Ev.Args[c.iOp]))
	par := c.fr(t.s, n, "ParentFrameIndex")
	t.must("link", t.same(par, c.L), "the parent of the nested type is %s", flow.Show(par))
	after := t.afterCompile(en)
	for i := 0; i < c.Frame.NumFields(); i++ {
		f := c.Frame.Field(i).Name()
		if f == "ParentFrameIndex" || f == "RecursionStack" {
			continue
		}
		w, ok := more[f]
		if !ok {
			w = c.fr(after, n, f)
		}
		at := t.s
		if f == "Type" {
			// A recursion of the next type may change it.
			if l, ok := c.fr(at, n, f).(flow.Lin); ok && len(l.T) == 1 && l.C == 0 && l.T[0].A.Op == "load" {
				at = t.beforeNext(en)
			}
		}
		x := c.fr(at, n, f)
		cat := "link"
		if f == "Type" && t.e == "Struct" {
			cat = "quoted"
		}
		t.must(cat, t.same(x, w), "%s of the nested type's frame is %s instead of %s", f, flow.Show(x), flow.Show(w))
	}
}

// afterCompile is the state right after a nested type was compiled.
func (t *T) afterCompile(en *flow.Entry) *flow.State {
	// The call is followed by the havoc and the type.
	i := 0
	for k, x := range t.ents {
		if x == en {
			i = k
		}
	}
	j := i
	for j+1 < len(t.ents) && (t.ents[j+1].Kind == flow.EHavoc || t.ents[j+1].Kind == flow.EStore && !t.ents[j+1].Pos.IsValid()) {
		j++
	}
	return t.s.At(t.ents[j])
}

// beforeNext is the state before the next nested type is compiled.
func (t *T) beforeNext(en *flow.Entry) *flow.State {
	on := false
	for _, x := range t.ents {
		if on && isCompile(x) {
			return t.s.Before(x)
		}
		on = on || x == en
	}
	return t.s
}

// writes checks that only the frames given are written to.
func (t *T) writes(ents []*flow.Entry, ok func(idx flow.Lin, field string) bool) {
	for _, en := range ents {
		if en.Kind != flow.EStore || !en.Pos.IsValid() {
			continue
		}
		switch t.region(en) {
		case "local":
			continue
		case "frames":
		default:
			if b := flow.Base(en.Addr); b != nil && (b.Op == "app" && b.NonZero || b.Name == "append") {
				continue
			}
			t.ok("effects")
			t.failAt(en, "effects", "a write to something else than the frames")
			continue
		}
		idx, f, known := t.c.frameOf(t.s.F, en.Addr)
		if !known {
			t.unsure("effects", "a write to an unknown frame")
			continue
		}
		t.ok("effects")
		if !ok(idx, f) {
			t.failAt(en, "effects", "%s of frame %s is written to", f, flow.Show(idx))
		}
	}
}

// recursive decides whether a struct type is one of those being compiled: found
// is its frame.
func (t *T) recursive(x flow.Iface) bool {
	c := t.c
	rec := t.recurKind()
	if rec {
		idx := lin(c.fr(t.s, c.L, "RecurFrame"))
		r := c.fr(t.s0, idx, "RType").(flow.Iface)
		t.must("recursion", t.same(r, x), "the frame %s isn't that of the recursive type", flow.Show(idx))
		t.must("recursion", t.decide(ge(c.L, idx.AddC(1))), "the frame %s may not exist", flow.Show(idx))
		k := c.fr(t.s, idx, "Type").(flow.Lin)
		t.must("recursion", t.same(k, flow.C(c.types["StructRecur"])), "the type of the recursive type's frame is %s", c.typeName(k))
		if rs := c.fr(t.s, idx, "RecursionStack").(flow.Sl); t.same(rs, c.fr(t.s0, idx, "RecursionStack")) != 1 {
			t.must("recursion", t.same(rs.Len, flow.C(0)), "the recursion begins with %s entries", flow.Show(rs.Len))
		}
		t.writes(t.ents, func(i flow.Lin, f string) bool {
			if t.same1(i, idx) {
				return f == "Type" || strings.HasPrefix(f, "RecursionStack")
			}
			return t.decide(ge(i, c.L)) == 1
		})
		return true
	}
	// Not found: all frames have other types.
	t.ok("recursion")
	searched, part := false, false
	for _, en := range t.ents {
		if en.Kind != flow.ELoop {
			continue
		}
		all, every := t.sweep(en, c.L, func(w *V, i flow.Lin) bool {
			return w.same(c.fr(w.s0, i, "RType"), x) == -1
		})
		searched = searched || all
		part = part || every
	}
	if !searched {
		if part {
			t.fail("recursion", "not all frames are searched for a recursive type")
		} else {
			t.fail("recursion", "it isn't decided whether the type is recursive")
		}
		t.done()
	}
	return false
}

// recurKind tells whether the frame made is that of a recursion.
func (t *T) recurKind() bool {
	k, ok := t.own("Type").(flow.Lin)
	if !ok || !k.IsC() {
		return false
	}
	return strings.HasSuffix(t.c.Types[k.C], "Recur") && t.c.Types[k.C] != "StructRecur"
}

// own is a field of the frame before nested types are compiled.
func (t *T) own(f string) flow.Val { return t.c.fr(t.beforeNested(), t.c.L, f) }

// beforeNested is the state before nested types are compiled.
func (t *T) beforeNested() *flow.State {
	for _, en := range t.ents {
		if isCompile(en) || en.Kind == flow.ELoop && t.hasCompile(en) {
			return t.s.Before(en)
		}
	}
	return t.s
}

func (t *T) scalar(typ string, want map[string]flow.Val) {
	if len(t.compiles()) > 0 {
		t.ok("frames")
		t.fail("frames", "a nested type is compiled")
		t.done()
	}
	t.noError()
	t.frame(t.s, typ, want)
	t.result(t.c.L.AddC(1))
	t.onlyOwn()
}

func (t *T) onlyOwn() {
	t.writes(t.ents, func(i flow.Lin, f string) bool { return t.decide(ge(i, t.c.L)) == 1 })
}

// nested expects n nested types and returns their events; errors of theirs are
// passed on.
func (t *T) nested(n int) []*flow.Entry {
	evs := t.compiles()
	t.errors(evs)
	t.ok("frames")
	if len(evs) != n {
		t.fail("frames", "%d nested types are compiled instead of %d", len(evs), n)
		t.done()
	}
	t.noError()
	return evs
}

func (t *T) errors(evs []*flow.Entry) {
	for _, en := range evs {
		e := resErr(en)
		if t.req(flow.Cond{Op: flow.NE, L: e.TW}) {
			t.must("error", t.same(t.o.Ret[1], e), "the error of a nested type is ignored")
			t.done()
		}
	}
}

func (t *T) spec() {
	c := t.c
	x := c.t
	if len(t.o.Ret) != 2 {
		t.unsure("analysis", "unknown results")
		return
	}
	// The result of a nested type's error.
	if t.isNil(x) {
		t.scalar("Any", nil)
		return
	}
	if t.isJSON(x) {
		t.scalar("JSONUnmarshaler", map[string]flow.Val{"RType": x})
		return
	}
	if t.isText(x) {
		t.scalar("TextUnmarshaler", map[string]flow.Val{"RType": x})
		return
	}
	for _, k := range scalarKinds {
		if t.isKind(x, k) {
			t.scalar(k, nil)
			return
		}
	}
	switch {
	case t.isKind(x, "String"):
		if t.isNumber(x) {
			t.scalar("Number", nil)
		} else {
			t.scalar("Str", nil)
		}
	case t.isKind(x, "Interface"):
		t.e = "Any"
		if t.req(ge(t.num("invoke.NumMethod", x), flow.C(1))) {
			t.must("error", b2i(t.decide(flow.Cond{Op: flow.NE, L: t.o.Ret[1].(flow.Iface).TW}) == 1), "interfaces with methods are accepted")
			return
		}
		t.scalar("Any", nil)
	case t.isKind(x, "Array"):
		if t.req(eq(t.num("invoke.Len", x), flow.C(0))) {
			t.scalar("ArrayLen0", nil)
			return
		}
		t.e = "Array"
		evs := t.nested(1)
		t.frame(t.beforeNested(), "Array", nil)
		t.child(evs[0], c.L.AddC(1), t.typeOf("invoke.Elem", x), map[string]flow.Val{"Cap": t.num("invoke.Len", x)})
		t.result(resSl(evs[0]).Len)
		t.onlyOwn()
	case t.isKind(x, "Slice"):
		t.slice()
	case t.isKind(x, "Map"):
		t.mapType()
	case t.isKind(x, "Struct"):
		t.structType()
	case t.isKind(x, "Pointer"):
		t.pointer()
	default:
		t.e = "unsupported"
		e, ok := t.o.Ret[1].(flow.Iface)
		t.must("error", b2i(ok && t.decide(flow.Cond{Op: flow.NE, L: e.TW}) == 1), "an unsupported type is accepted")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return -1
}

func (t *T) slice() {
	c := t.c
	el := t.typeOf("invoke.Elem", c.t)
	t.e = "Slice"
	k, _ := t.own("Type").(flow.Lin)
	name := c.typeName(k)
	if name == "Slice" {
		// Always right, except for recursive types.
		if !t.anyUnmarshaler(el) && t.isKind(el, "Struct") && t.req(ge(t.size(el), flow.C(1))) && t.recursive(el) {
			t.done()
		}
		evs := t.nested(1)
		t.frame(t.beforeNested(), "Slice", nil)
		t.child(evs[0], c.L.AddC(1), el, nil)
		t.result(resSl(evs[0]).Len)
		t.onlyOwn()
		return
	}
	if t.anyUnmarshaler(el) {
		t.ok("type")
		t.fail("type", "the unmarshaler of the elements is ignored, the frame is %s", name)
		return
	}
	for _, k := range scalarKinds {
		if t.isKind(el, k) {
			t.scalar("Slice"+k, nil)
			return
		}
	}
	switch {
	case t.isKind(el, "String"):
		if t.isNumber(el) {
			t.frame(t.beforeNested(), "Slice", nil)
			return
		}
		t.scalar("SliceString", nil)
	case t.isKind(el, "Struct"):
		if t.req(eq(t.size(el), flow.C(0))) {
			t.scalar("SliceEmptyStruct", nil)
			return
		}
		t.recur("SliceRecur", el)
	default:
		t.frame(t.beforeNested(), "Slice", nil)
	}
}

// recur expects the frame of a recursive container.
func (t *T) recur(typ string, el flow.Iface) {
	t.frame(t.s, typ, map[string]flow.Val{"RecurFrame": t.own("RecurFrame")})
	t.noError()
	t.result(t.c.L.AddC(1))
	t.ok("recursion")
	if !t.recursive(el) {
		t.fail("recursion", "not the frame of a recursive type")
	}
}

func (t *T) pointer() {
	c := t.c
	el := t.typeOf("invoke.Elem", c.t)
	t.e = "Ptr"
	if t.recurKind() {
		t.ok("recursion")
		if !t.isKind(el, "Struct") {
			t.fail("recursion", "a pointer to something else than a struct is recursive")
			return
		}
		t.recur("PtrRecur", el)
		return
	}
	if t.isKind(el, "Struct") && t.req(ge(t.size(el), flow.C(1))) && t.recursive(el) {
		t.done()
	}
	evs := t.nested(1)
	t.frame(t.beforeNested(), "Ptr", nil)
	t.child(evs[0], c.L.AddC(1), el, nil)
	t.result(resSl(evs[0]).Len)
	t.onlyOwn()
}

func (t *T) mapType() {
	c := t.c
	key, el := t.typeOf("invoke.Key", c.t), t.typeOf("invoke.Elem", c.t)
	t.e = "Map"
	k, _ := t.own("Type").(flow.Lin)
	name := c.typeName(k)
	if name == "MapStringString" {
		t.e = name
		t.ok("type")
		for _, x := range []flow.Iface{key, el} {
			if !t.isKind(x, "String") || t.anyUnmarshaler(x) || t.isNumber(x) {
				t.fail("type", "a map of other than strings is decoded as one")
				return
			}
		}
		t.scalar("MapStringString", map[string]flow.Val{"RType": c.t})
		return
	}
	static := map[string]flow.Val{
		"MapValueType": t.dataWord(el), "MapCanUseAssignFaststr": flow.Cond{Op: flow.False},
	}
	keyMore := func(en *flow.Entry, n flow.Lin) map[string]flow.Val {
		// Keys are decoded by their text unmarshaler only.
		after := t.afterCompile(en)
		kt := lin(c.fr(after, n, "Type"))
		if t.req(eq(kt, flow.C(c.types["JSONUnmarshaler"]))) && t.isText(key) {
			return map[string]flow.Val{"Type": flow.C(c.types["TextUnmarshaler"])}
		}
		return map[string]flow.Val{"Type": kt}
	}
	n := c.L.AddC(1)
	if t.recurKind() {
		t.e = "MapRecur"
		evs := t.compiles()
		t.errors(evs)
		static["RecurFrame"] = t.own("RecurFrame")
		if len(evs) != 1 {
			t.ok("frames")
			t.fail("frames", "%d nested types are compiled instead of the key's", len(evs))
			return
		}
		t.frame(t.beforeNested(), "MapRecur", static)
		t.ok("recursion")
		if !t.isKind(el, "Struct") || t.anyUnmarshaler(el) {
			t.fail("recursion", "a map of other values than structs is recursive")
			return
		}
		t.child(evs[0], n, key, keyMore(evs[0], n))
		t.noError()
		t.result(resSl(evs[0]).Len)
		// The recursive frame may be a struct that follows after a nested type was compiled.
		t.recursiveBefore(evs[0], el)
		return
	}
	if t.isKind(el, "Struct") && t.req(ge(t.size(el), flow.C(1))) && !t.anyUnmarshaler(el) && t.recursive(el) {
		t.done()
	}
	evs := t.compiles()
	t.errors(evs)
	t.nested(2)
	t.frame(t.beforeNested(), "Map", static)
	t.child(evs[0], n, key, keyMore(evs[0], n))
	t.child(evs[1], resSl(evs[0]).Len, el, nil)
	t.result(resSl(evs[1]).Len)
	t.onlyOwn()
}

// recursiveBefore checks the link of a recursion in the state before a nested
// type was compiled.
func (t *T) recursiveBefore(en *flow.Entry, el flow.Iface) {
	w := *t.V
	w.s = t.s.Before(en)
	w.rep = &Rep{Obligations: map[string]int{}}
	x := &T{V: &w, c: t.c}
	t.ok("recursion")
	tryDone(func() { x.recursive(el) })
	t.failed = t.failed || w.failed
	t.rep.Findings = append(t.rep.Findings, w.rep.Findings...)
	for k, n := range w.rep.Obligations {
		t.rep.Obligations[k] += n
	}
}

func (t *T) structType() {
	c := t.c
	x := c.t
	t.e = "Struct"
	n := t.num("invoke.NumField", x)
	if t.req(eq(n, flow.C(0))) {
		k, _ := t.own("Type").(flow.Lin)
		if c.typeName(k) == "EmptyStruct" {
			t.scalar("EmptyStruct", nil)
			return
		}
	}
	var loop *flow.Entry
	for _, en := range t.ents {
		if en.Kind == flow.ELoop && t.hasCompile(en) {
			if loop != nil {
				t.unsure("fields", "the fields are compiled by several loops")
				return
			}
			loop = en
		}
	}
	if loop == nil {
		t.ok("fields")
		t.fail("fields", "the fields aren't compiled")
		return
	}
	// The frame is made before the fields.
	head := t.s.Before(loop)
	{
		w := *t.V
		w.rep = &Rep{Obligations: map[string]int{}}
		w.s = head
		y := &T{V: &w, c: c}
		tryDone(func() { y.frame(head, "Struct", map[string]flow.Val{"RType": x}) })
		t.failed = t.failed || w.failed
		t.rep.Findings = append(t.rep.Findings, w.rep.Findings...)
		for k, n := range w.rep.Obligations {
			t.rep.Obligations[k] += n
		}
	}
	// The number of frames at the begin of an iteration.
	length := -1
	for i, cp := range loop.Loop.Comps {
		if l, ok := cp.Init.(flow.Lin); ok && cp.Cell == nil && t.same(l, c.L.AddC(1)) == 1 && cp.Kind == flow.Gen && cp.Typ == flow.TyLen {
			length = i
		}
	}
	if length < 0 {
		t.unsure("fields", "the frames of the fields aren't known")
		return
	}
	fs, _ := c.fieldStruct()
	local := -1
	for k, cp := range loop.Loop.Comps {
		if cp.Phi == nil || k+1 >= len(loop.Loop.Comps) || loop.Loop.Comps[k+1].Phi != cp.Phi || local >= 0 {
			continue
		}
		if sl, ok := cp.Phi.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), fs) {
			local = k
		}
	}
	at := loop.Loop.Comps[length].Val.(flow.Lin)
	N := flow.A(loop.Loop.N)
	i := flow.Lin{}
	found := false
	for _, cp := range loop.Loop.Comps {
		if cp.Kind == flow.Ind && cp.Delta.IsC() && cp.Delta.C == 1 {
			if l, ok := cp.Init.(flow.Lin); ok && l.IsC() && l.C == 0 {
				i, found = N, true
			}
		}
	}
	if !found {
		for _, cp := range loop.Loop.Comps {
			if cp.Kind == flow.Ind {
				t.ok("fields")
				t.fail("fields", "the fields are those from %s on, by %s", flow.Show(cp.Init), flow.Show(cp.Delta))
				return
			}
		}
		t.unsure("fields", "the index of the field isn't known")
		return
	}
	for _, b := range loop.Loop.Backs {
		t.each(loop, b, func(w *V) {
			w.e = "Struct"
			y := &T{V: w, c: c}
			if local >= 0 {
				p, n := loop.Loop.Comps[local], loop.Loop.Comps[local+1]
				y.before = &flow.Sl{Ptr: lin(p.Val), Len: lin(n.Val)}
				y.then = &flow.Sl{Ptr: lin(b.Next[local]), Len: lin(b.Next[local+1])}
			}
			tryDone(func() { y.field(i, at, w.ents, w.first(), true) })
			w.ok("fields")
			next := lin(b.Next[length])
			want := at
			if evs := y.compiles(); len(evs) == 1 {
				want = resSl(evs[0]).Len
			}
			w.must("frames", w.same(next, want), "%s frames remain after a field instead of %s", flow.Show(next), flow.Show(want))
		})
	}
	// The end of the loop.
	var rest []*flow.Entry
	on := false
	for _, en := range t.ents {
		if on {
			rest = append(rest, en)
		}
		on = on || en == loop
	}
	// The cells of the loop follow it.
	for len(rest) > 0 && rest[0].Kind == flow.EStore && !rest[0].Pos.IsValid() {
		rest = rest[1:]
	}
	if local >= 0 {
		p, n := loop.Loop.Comps[local], loop.Loop.Comps[local+1]
		var other []*flow.Entry
		for _, en := range rest {
			idx, f, ok := flow.Lin{}, "", false
			if en.Kind == flow.EStore {
				idx, f, ok = c.frameOf(t.s.F, en.Addr)
			}
			if !ok || !t.same1(idx, c.L) || !strings.HasPrefix(f, "Fields") {
				other = append(other, en)
			}
		}
		if len(other) < len(rest) && len(other) == 0 {
			rest = nil
			t.must("fields", t.same(n.Init, flow.C(0)), "a struct has %s fields before the first", flow.Show(n.Init))
			got := c.fr(t.s, c.L, "Fields").(flow.Sl)
			t.must("fields", b2i(t.same1(got.Ptr, p.Val) && t.same1(got.Len, n.Val)), "the struct has the fields %s", flow.Show(got))
		}
	}
	if len(rest) > 0 || t.decide(flow.Cond{Op: flow.NE, L: t.o.Ret[1].(flow.Iface).TW}) != -1 {
		// Ends in an iteration.
		st := t.s
		if len(rest) > 0 {
			st = t.s.Before(rest[0])
		}
		if t.req(ge(i, n)) {
			t.ok("fields")
			t.fail("fields", "something else follows the fields")
			return
		}
		w := *t.V
		w.ents = rest
		y := &T{V: &w, c: c}
		y.field(i, at, rest, st, false)
		t.failed = w.failed
		return
	}
	t.must("fields", t.decide(ge(i, n)), "not all fields are compiled")
	t.noError()
	t.result(at)
}

var quotable = []string{"Str", "Bool", "Float32", "Float64", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64"}

// field expects that the i-th field is compiled into the frames from at on, or is
// ignored; goes tells whether another field follows.
func (t *T) field(i, at flow.Lin, ents []*flow.Entry, head *flow.State, goes bool) {
	c := t.c
	sf := t.c.reflectType("StructField")
	f := t.fn("invoke.Field", sf, c.t, i).(flow.Agg)
	st := sf.Underlying().(*types.Struct)
	get := func(n string) flow.Val { return f.F[fieldIndex(st, n)] }
	evs := t.compiles()
	none := func(why string) {
		t.ok("fields")
		if len(evs) > 0 {
			t.fail("fields", "%s is decoded", why)
			t.done()
		}
		t.writes(ents, func(flow.Lin, string) bool { return false })
		t.must("fields", b2i(goes), "the fields end with %s", why)
		t.done()
	}
	exported := t.req(eq(get("PkgPath").(flow.Str).Len, flow.C(0)))
	if !exported && (len(evs) == 0 || !t.req(get("Anonymous").(flow.Cond))) {
		none("an unexported field")
	}
	tag := c.E.ToStr(t.fn("reflect.StructTag.Get", types.Typ[types.String], get("Tag"), t.str("json")))
	name := c.E.ToStr(get("Name"))
	opt := false
	isDash := c.E.EqualStr(t.s, tag, t.str("-"))
	comma := lin(t.fn("IndexByte", types.Typ[types.Int], tag, flow.C(',')))
	t.assume(ge(comma, flow.C(-1)))
	t.assume(ge(tag.Len, comma.AddC(1)))
	if t.req(eq(tag.Len, flow.C(0))) {
		if t.decide(isDash) == 1 {
			infeasible()
		}
	} else {
		tagName := tag
		if t.req(ge(comma, flow.C(0))) {
			if t.decide(isDash) == 1 {
				infeasible()
			}
			tagName = flow.Str{Ptr: tag.Ptr, Len: comma}
			opt = t.tagOption(flow.Str{Ptr: tag.Ptr.Add(comma, 1).AddC(1), Len: tag.Len.Add(comma, -1).AddC(-1)}, ents)
		} else if t.req(isDash) {
			none("a field with the tag \"-\"")
		}
		if !t.req(eq(tagName.Len, flow.C(0))) {
			name = tagName
		}
	}
	t.errors(evs)
	t.ok("fields")
	if len(evs) != 1 {
		t.fail("fields", "a field is compiled %d times", len(evs))
		t.done()
	}
	en := evs[0]
	after := t.afterCompile(en)
	kind := lin(c.fr(after, at, "Type"))
	want := kind
	if opt {
		supported := false
		for _, q := range quotable {
			if t.req(eq(kind, flow.C(c.types[q]))) {
				want, supported = flow.C(c.types[q+"String"]), true
				break
			}
		}
		if !supported && t.req(c.optionDisallow(t)) {
			t.must("quoted", b2i(!goes && t.same(t.o.Ret[1], t.global("ErrStringTagOptionOnUnsupportedType")) == 1), "the string option of an unsupported type isn't reported")
			t.done()
		}
	}
	t.ok("quoted")
	if !goes {
		t.fail("fields", "the fields end early, with the error %s", flow.Show(t.o.Ret[1]))
		t.done()
	}
	t.child(en, at, get("Type").(flow.Iface), map[string]flow.Val{"Offset": get("Offset"), "Type": want})
	old := c.fr(head, c.L, "Fields").(flow.Sl)
	now := c.fr(t.s, c.L, "Fields").(flow.Sl)
	if t.then != nil {
		old, now = *t.before, *t.then
	}
	for _, x := range ents {
		if x.Kind == flow.EEvent && x.Ev.Name == "append" && t.same(x.Ev.Res, now.Ptr) != 1 && !t.same1(now.Len, old.Len.AddC(1)) {
			t.unsure("fields", "what the fields are added to isn't known")
			t.done()
		}
	}
	t.must("fields", t.same(now.Len, old.Len.AddC(1)), "the struct has %s fields instead of %s", flow.Show(now.Len), flow.Show(old.Len.AddC(1)))
	fs, _ := c.fieldStruct()
	listed := false
	for _, x := range ents {
		if x.Kind != flow.EEvent || x.Ev.Name != "append" || t.same(x.Ev.Res, now.Ptr) != 1 {
			continue
		}
		a, ok := x.Ev.Args[1].(flow.Agg)
		o, ok2 := x.Ev.Args[0].(flow.Sl)
		if !ok || !ok2 || len(a.F) != 1 || t.same(o.Ptr, old.Ptr) != 1 {
			continue
		}
		listed = true
		y := a.F[0].(flow.Agg)
		gn, gi := y.F[fieldIndex(fs, "Name")], y.F[fieldIndex(fs, "FrameIndex")]
		t.must("fields", t.same(gi, at), "the frame of the field is %s instead of %s", flow.Show(gi), flow.Show(at))
		t.must("fields", t.same(c.E.ToStr(gn), name), "the name of the field is %s instead of %s", flow.Show(gn), flow.Show(name))
	}
	t.ok("fields")
	if !listed {
		t.unsure("fields", "how the field is added isn't known")
	}
	t.writes(ents, func(idx flow.Lin, f string) bool {
		if t.same1(idx, c.L) {
			return strings.HasPrefix(f, "Fields")
		}
		return t.same1(idx, at) && (f == "Offset" || f == "ParentFrameIndex" || f == "Type")
	})
}

func (c *Compiler) optionDisallow(t *T) flow.Cond {
	pt, ok := c.Fn.Params[c.iOp].Type().Underlying().(*types.Pointer)
	if !ok {
		bail("the options aren't a pointer")
	}
	st := pt.Elem().Underlying().(*types.Struct)
	const name = "DisallowStringTagOptOnUnsupportedTypes"
	return c.E.Load(t.s0, c.op.(flow.Lin).AddC(c.Off(st, name)), fieldType(st, name)).(flow.Cond)
}

// tagOption decides whether the options of a tag include "string".
func (t *T) tagOption(rest flow.Str, ents []*flow.Entry) bool {
	c := t.c
	parts, ok := t.fn("strings.Split", types.NewSlice(types.Typ[types.String]), rest, t.str(",")).(flow.Sl)
	if !ok {
		t.unsure("quoted", "the options of the tag aren't known")
		t.done()
	}
	want := t.str("string")
	isOpt := func(v *V, i flow.Lin) flow.Cond {
		x := c.E.Load(v.s, parts.Ptr.Add(i, 2*c.E.Word()), types.Typ[types.String])
		return c.E.EqualStr(v.s, c.E.ToStr(x), want)
	}
	var loops []*flow.Entry
	for _, en := range ents {
		if en.Kind == flow.ELoop {
			loops = append(loops, en)
		}
	}
	for _, en := range loops {
		r := en.Loop
		// Found in the iteration the loop ended in?
		N := flow.A(r.N)
		if t.decide(isOpt(t.V, N)) == 1 && t.decide(ge(parts.Len, N.AddC(1))) == 1 {
			t.claim(en)
			return true
		}
		// A flag that's set by the option.
		for i, cp := range r.Comps {
			if b, ok := cp.Typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Bool || cp.Kind != flow.Gen || cp.Sym == nil {
				continue
			}
			if x, ok := cp.Init.(flow.Cond); !ok || t.same(x, flow.Cond{Op: flow.False}) != 1 {
				continue
			}
			flag := flow.Cond{Op: flow.IS, T: cp.Sym}
			good := true
			for _, b := range r.Backs {
				b := b
				nx := b.Next[i]
				t.each(en, b, func(w *V) {
					n, ok := nx.(flow.Cond)
					good = good && ok
					if !ok {
						return
					}
					if w.req(isOpt(w, flow.A(r.N))) {
						good = good && w.same(n, flow.Cond{Op: flow.True}) == 1
					} else {
						good = good && (w.same(n, flag) == 1 || n.Key() == flag.Key())
					}
				})
			}
			if !good {
				t.ok("quoted")
				if t.comparesOptions(en, parts) {
					t.claim(en)
					t.fail("quoted", "the flag of the option isn't that of \"string\"")
				} else {
					t.unsure("quoted", "how the options of a tag are compared isn't known")
				}
				t.done()
			}
			if t.decide(ge(N, parts.Len)) != 1 {
				t.ok("quoted")
				t.fail("quoted", "not all options of a tag are looked at")
				t.done()
			}
			t.claim(en)
			return t.req(flag)
		}
		// None of the options is it.
		all := len(r.Backs) > 0
		for _, b := range r.Backs {
			t.each(en, b, func(w *V) { all = all && w.decide(isOpt(w, flow.A(r.N))) == -1 })
		}
		if all {
			t.claim(en)
			t.must("quoted", t.decide(ge(N, parts.Len)), "not all options of a tag are looked at")
			return false
		}
	}
	for _, en := range loops {
		if t.decide(ge(flow.A(en.Loop.N), parts.Len)) == 1 && t.comparesOptions(en, parts) {
			t.claim(en)
			t.ok("quoted")
			t.fail("quoted", "no option of a tag has an effect")
			t.done()
		}
	}
	if len(t.pathTerms("strings.Split")) == 0 && len(loops) == 0 {
		t.ok("quoted")
		t.fail("quoted", "the options of a tag aren't looked at")
	} else {
		t.unsure("quoted", "the options of a tag aren't compared in a known way")
	}
	t.done()
	return false
}

// comparesOptions tells whether a loop's branches only depend on comparisons of
// the parts.
func (t *T) comparesOptions(en *flow.Entry, parts flow.Sl) bool {
	n := 0
	for _, b := range en.Loop.Backs {
		for _, h := range b.Hist {
			if h.T == nil {
				continue
			}
			if h.T.Op != "app" || h.T.Name != "eqstr" {
				return false
			}
			part := false
			flow.Visit(h, func(u *flow.Term) {
				part = part || u.Op == "load" && flow.Base(u.Addr) == flow.Base(parts.Ptr)
			})
			if !part {
				return false
			}
			n++
		}
	}
	return n > 0 || t.decide(ge(flow.A(en.Loop.N), parts.Len)) == 1
}

// claim notes that a loop does what it has to.
func (t *T) claim(en *flow.Entry) {
	delete(t.compares, en)
	t.claimed = append(t.claimed, en)
	t.unknown = ""
}

// SortedKinds lists the kinds of types.
func (c *Compiler) SortedKinds() []string {
	var out []string
	for n := range c.kindsOf {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
