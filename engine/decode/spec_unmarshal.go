package decode

import (
	"go/types"

	"jscheck/flow"
)

// reflectType is a type of the package reflect.
func (m *Model) reflectType(name string) types.Type {
	for _, imp := range m.P.Root.Pkg.Imports() {
		if imp.Path() == "reflect" {
			if o := imp.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	bail("reflect.%s isn't found", name)
	return nil
}

func (v *V) rtype(fr flow.Lin) flow.Iface { return v.m.fr(v.s0, fr, "RType").(flow.Iface) }

// changes counts the entries before en that may change a reflected value.
func (v *V) changes(en *flow.Entry) int64 {
	n := int64(0)
	for _, x := range v.ents {
		if x.Kind == flow.EEvent || x.Kind == flow.EHavoc {
			n++
		}
		if x == en {
			break
		}
	}
	return n
}

// unmarshal expects that an unmarshaler at p is called with a text and returns
// its error.
func (v *V) unmarshal(method string, rt flow.Iface, p flow.Lin, isPtr bool, text flow.Str) flow.Iface {
	m := v.m
	val := m.reflectType("Value")
	recv := []flow.Val{v.apps("reflect.NewAt", val, rt, p)}
	after := int64(0)
	if isPtr {
		el := v.apps("reflect.Value.Elem", val, recv[0])
		recv = []flow.Val{el}
		if v.req(v.apps("reflect.Value.IsNil", types.Typ[types.Bool], el).(flow.Cond)) {
			et := v.apps("invoke.Elem", rtypeT(m), rt)
			var set *flow.Entry
			for set == nil {
				set = v.event("reflect.Value.Set")
				if set == nil {
					break
				}
				if v.same(set.Ev.Args[0], el) != 1 {
					v.failAt(set, "unmarshaler", "another value than the pointer is set")
					v.done()
				}
			}
			v.ok("unmarshaler")
			if set == nil {
				v.fail("unmarshaler", "the nil pointer to an unmarshaler isn't set to a new value")
				v.done()
			}
			var nv flow.Val
			for _, en := range v.ents {
				if en.Kind == flow.EEvent && en.Ev.Name == "reflect.New" && v.same(en.Ev.Args[0], et) == 1 && v.same(en.Ev.Res, set.Ev.Args[1]) == 1 {
					nv = en.Ev.Res
					v.use(en)
				}
			}
			if nv == nil {
				v.failAt(set, "unmarshaler", "the pointer to an unmarshaler isn't set to a new value of the type it points to")
				v.done()
			}
			v.use(set)
			recv = append(recv, nv)
			after = v.changes(set)
		}
	}
	call := v.event("invoke.UnmarshalJSON", "invoke.UnmarshalText")
	v.ok("unmarshaler")
	if call == nil {
		v.fail("unmarshaler", "the unmarshaler isn't called")
		v.done()
	}
	v.use(call)
	if call.Ev.Name != "invoke."+method {
		v.failAt(call, "unmarshaler", "%s is called instead of %s", call.Ev.Name[len("invoke."):], method)
	}
	good := false
	if x, ok := call.Ev.Args[0].(flow.Iface); ok && len(x.TW.T) == 1 && x.TW.T[0].A.Op == "app" && x.TW.T[0].A.Name == "reflect.Value.Interface" {
		t := x.TW.T[0].A
		for i, r := range recv {
			if v.same(t.Args[0], r) == 1 && (i > 0 || len(t.Args) > 1 && lin(t.Args[1]).C >= after) {
				good = true
			}
		}
	}
	if !good {
		v.failAt(call, "unmarshaler", "%s is called on another value than the destination: %s", method, flow.Show(call.Ev.Args[0]))
	}
	arg := m.E.ToStr(call.Ev.Args[1])
	v.ok("unmarshaltext")
	if v.same(arg, text) != 1 {
		v.failAt(call, "unmarshaltext", "%s is called with %s instead of %s", method, flow.Show(arg), flow.Show(text))
	}
	if !m.Bytes {
		v.ok("alias")
		sp := m.E.ToStr(m.S).Ptr.T[0].A
		if sl, ok := call.Ev.Args[1].(flow.Sl); ok && sl.Ptr.Coef(sp) != 0 {
			v.failAt(call, "alias", "%s is called with the memory of the input string", method)
		}
	}
	return call.Ev.Res.(flow.Iface)
}

func rtypeT(m *Model) types.Type { return fieldType(m.Frame, "RType") }

func (v *V) settleUnmarshal(er flow.Iface, next flow.Lin) {
	if !v.req(flow.Cond{Op: flow.EQ, L: er.TW}) {
		v.wantErr(v.m.TI, "the unmarshaler returned an error", er)
		return
	}
	v.valEnd(v.m.SI, next)
}

func (v *V) unmarshalJSON() {
	ti, si := v.m.TI, v.m.SI
	text, next := v.raw(ti, 0), ti.AddC(1)
	if v.k == "Array" || v.k == "Object" {
		end := v.tok(ti, "End")
		text.Len = v.tok(end, "Index").AddC(1).Add(v.tok(ti, "Index"), -1)
		next = end.AddC(1)
	}
	v.settleUnmarshal(v.unmarshal("UnmarshalJSON", v.rtype(si), v.p(), v.isPointerType(si), text), next)
}

func (v *V) unmarshalText() {
	ti, si := v.m.TI, v.m.SI
	text := v.unescaped(v.raw(ti, 1))
	v.settleUnmarshal(v.unmarshal("UnmarshalText", v.rtype(si), v.p(), v.isPointerType(si), text), ti.AddC(1))
}
