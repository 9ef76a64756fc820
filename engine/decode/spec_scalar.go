package decode

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"jscheck/flow"
)

type intType struct {
	t        types.Type
	bits     int
	unsigned bool
}

var ints = map[string]intType{
	"Int": {types.Typ[types.Int], 64, false}, "Int8": {types.Typ[types.Int8], 8, false},
	"Int16": {types.Typ[types.Int16], 16, false}, "Int32": {types.Typ[types.Int32], 32, false},
	"Int64": {types.Typ[types.Int64], 64, false},
	"Uint":  {types.Typ[types.Uint], 64, true}, "Uint8": {types.Typ[types.Uint8], 8, true},
	"Uint16": {types.Typ[types.Uint16], 16, true}, "Uint32": {types.Typ[types.Uint32], 32, true},
	"Uint64": {types.Typ[types.Uint64], 64, true},
}

// intOf is the type of integers with a name.
func (m *Model) intOf(name string) (intType, bool) {
	it, ok := ints[name]
	if ok {
		it.bits = 8 * int(m.E.Sizes.Sizeof(it.t))
	}
	return it, ok
}

var floats = map[string]int64{"Float32": 32, "Float64": 64}

func floatType(bits int64) types.Type {
	if bits == 32 {
		return types.Typ[types.Float32]
	}
	return types.Typ[types.Float64]
}

func tuple(ts ...types.Type) *types.Tuple {
	var vs []*types.Var
	for _, t := range ts {
		vs = append(vs, types.NewVar(0, nil, "", t))
	}
	return types.NewTuple(vs...)
}

// scalarType is the type of the value of a scalar destination.
func (m *Model) scalarType(e string) types.Type {
	if it, ok := m.intOf(e); ok {
		return it.t
	}
	switch e {
	case "Bool":
		return types.Typ[types.Bool]
	case "Str":
		return types.Typ[types.String]
	case "Number":
		return m.numberT
	case "Float32":
		return types.Typ[types.Float32]
	case "Float64":
		return types.Typ[types.Float64]
	}
	return nil
}

// result is the outcome of parsing a text: a value or errors.
type result struct {
	vals []flow.Val // acceptable values
	errs []flow.Val // acceptable errors if it's invalid
	long bool       // it may have several digits
	why  string
}

func (v *V) invalid(why string, errs ...string) result {
	var es []flow.Val
	for _, e := range errs {
		es = append(es, v.global(e))
	}
	return result{errs: es, why: why}
}

// firstByte is the first byte of a text.
func (v *V) firstByte(raw flow.Str) flow.Lin {
	return lin(v.m.E.Load(v.s0, raw.Ptr, types.Typ[types.Byte]))
}

// parseInt is the specification of parsing an integer that's lexically valid.
func (v *V) parseInt(raw flow.Str, it intType) result {
	if it.unsigned && v.req(flow.Cond{Op: flow.EQ, L: v.firstByte(raw).AddC(-'-')}) {
		return v.invalid("it's a negative number for an unsigned type", "ErrUnexpectedValue")
	}
	over := v.invalid("the number is out of range", "ErrIntegerOverflow")
	if strings.HasSuffix(v.e, "String") || v.k == "Key" {
		over = v.invalid("the number is out of range", "ErrUnexpectedValue", "ErrIntegerOverflow")
	}
	letter := "I"
	if it.unsigned {
		letter = "U"
	}
	// So many bytes don't overflow.
	digits := map[int]int64{8: 2, 16: 4, 32: 9, 64: 18}[it.bits]
	short := v.decide(ge(flow.C(digits), raw.Len)) == 1
	var vals []flow.Val
	if v.decide(eq(raw.Len, flow.C(1))) == 1 {
		d := v.firstByte(raw).AddC(-'0')
		vals = append(vals, d, flow.A(v.m.E.App("wrap8", types.Typ[types.Uint8], v.s.F.Norm(d))))
	}
	for _, bits := range []int{it.bits, 8, 16, 32, 64} {
		if bits < it.bits {
			continue
		}
		name := fmt.Sprintf("atoi.%s%d", letter, bits)
		t := v.findApp(name, raw)
		if t == nil {
			continue
		}
		r := v.m.E.AppVal(t, v.m.results[t]).(flow.Tuple)
		if short {
			v.assume(r.F[1].(flow.Cond).Negate())
		}
		if v.req(r.F[1].(flow.Cond)) {
			return over
		}
		x := lin(r.F[0])
		if bits > it.bits {
			var min, max int64 = 0, 1<<it.bits - 1
			if !it.unsigned {
				min, max = -1<<(it.bits-1), 1<<(it.bits-1)-1
			}
			if short {
				v.assume(ge(x, flow.C(min)))
				v.assume(ge(flow.C(max), x))
			}
			if !v.req(ge(x, flow.C(min))) || !v.req(ge(flow.C(max), x)) {
				return over
			}
		}
		if bits > it.bits {
			vals = append(vals, flow.A(v.m.E.App("conv "+it.t.String(), it.t, v.s.F.Norm(x))))
		}
		return result{vals: append(vals, x)}
	}
	r := v.apps(fmt.Sprintf("atoi.%s%d", letter, it.bits), tuple(it.t, types.Typ[types.Bool]), raw).(flow.Tuple)
	if short {
		v.assume(r.F[1].(flow.Cond).Negate())
	}
	if v.req(r.F[1].(flow.Cond)) {
		return over
	}
	return result{vals: append(vals, r.F[0]), long: vals == nil}
}

// findApp returns an application on the path to a text.
func (v *V) findApp(name string, raw flow.Str) *flow.Term {
	for _, t := range v.pathTerms(name) {
		if len(t.Args) > 0 && v.same(t.Args[0], raw) == 1 && v.m.results[t] != nil {
			return t
		}
	}
	return nil
}

// parseFloat is the specification of parsing a number that's lexically valid.
func (v *V) parseFloat(raw flow.Str, bits int64, integer bool) result {
	ft := floatType(bits)
	var res result
	if integer {
		for _, p := range []struct {
			name  string
			digit int64
			own   bool
		}{{"atoi.I32", 9, true}, {"atoi.I64", 18, true}, {"jscan.atoi.I32", 9, false}, {"jscan.atoi.I64", 18, false}, {"atoi.I8", 2, true}, {"atoi.I16", 4, true}} {
			t := v.findApp(p.name, raw)
			if t == nil {
				continue
			}
			r := v.m.E.AppVal(t, v.m.results[t]).(flow.Tuple)
			ov := r.F[1].(flow.Cond)
			switch {
			case v.decide(ge(flow.C(p.digit), raw.Len)) == 1:
				// So many digits don't overflow.
				v.assume(ov.Negate())
			case !p.own || v.req(ov):
				continue
			}
			if x, ok := v.m.E.Convert(v.s, r.F[0], tupleAt(v.m.results[t], 0), ft); ok {
				res.vals = append(res.vals, x)
			}
		}
	}
	if len(res.vals) > 0 && v.findApp("strconv.ParseFloat", raw) == nil {
		return res
	}
	r := v.apps("strconv.ParseFloat", tuple(types.Typ[types.Float64], errorT), raw, flow.C(bits)).(flow.Tuple)
	er := r.F[1].(flow.Iface)
	if !v.req(flow.Cond{Op: flow.EQ, L: er.TW}) {
		if len(res.vals) == 0 {
			return result{errs: []flow.Val{er}, why: "the number is out of range"}
		}
		return res
	}
	x, _ := v.m.E.Convert(v.s, r.F[0], types.Typ[types.Float64], ft)
	res.vals = append(res.vals, x)
	return res
}

func (v *V) returnCode(name string) int64 {
	for _, imp := range v.m.P.Root.Pkg.Imports() {
		if strings.HasSuffix(imp.Path(), "/jsonnum") {
			if c, ok := imp.Scope().Lookup("ReturnCode" + name).(interface{ Val() constant.Value }); ok {
				n, _ := constant.Int64Val(c.Val())
				return n
			}
		}
	}
	bail("the return code %s isn't found", name)
	return 0
}

// isNumber expects that a text consists of a number exactly.
func (v *V) isNumber(raw flow.Str, integer bool) bool {
	r := v.apps("ReadNumber", tuple(types.Typ[types.String], types.Typ[types.Int]), raw).(flow.Tuple)
	rc := lin(r.F[1])
	if integer {
		if !v.req(flow.Cond{Op: flow.EQ, L: rc.AddC(-v.returnCode("Integer"))}) {
			return false
		}
	} else if v.req(flow.Cond{Op: flow.EQ, L: rc.AddC(-v.returnCode("Err"))}) {
		return false
	}
	return v.req(flow.Cond{Op: flow.EQ, L: v.m.E.ToStr(r.F[0]).Len})
}

// quotedInt is the specification of an integer in a string or key.
func (v *V) quotedInt(raw flow.Str, it intType) result {
	if !v.isNumber(raw, true) {
		return v.invalid("the text isn't an integer", "ErrUnexpectedValue")
	}
	return v.parseInt(raw, it)
}

// settle expects the result of parsing a token.
func (v *V) settle(r result, t types.Type) {
	ti, si := v.m.TI, v.m.SI
	if r.errs != nil {
		v.wantErr(ti, r.why, r.errs...)
		return
	}
	v.allowed(v.p(), t)
	if v.o.Kind == flow.OCut {
		got := v.final(v.p(), t)
		if r.long && v.computed(got) {
			v.unsure("value", "the number is computed from the bytes of the text: %s", flow.Show(got))
		} else {
			v.oneOf("value", got, r.vals)
		}
	}
	v.valEnd(si, ti.AddC(1))
}

func (v *V) oneOf(cat string, got flow.Val, vals []flow.Val) {
	v.ok(cat)
	for _, x := range vals {
		if v.same(stripConv(got), x) == 1 || v.same(got, x) == 1 {
			return
		}
	}
	v.fail(cat, "the value is %s instead of %s", flow.Show(got), flow.Show(vals[len(vals)-1]))
}

// computed tells whether a value is computed from bytes of the input.
func (v *V) computed(x flow.Val) bool {
	sp := v.m.E.ToStr(v.m.S).Ptr.T[0].A
	found := false
	flow.Visit(x, func(t *flow.Term) {
		found = found || t.Op == "load" && t.Addr.Coef(sp) != 0 || t.Op == "sym" && strings.Contains(t.Name, "@")
	})
	return found
}

// stripConv removes the conversion of an integer that's in range.
func stripConv(x flow.Val) flow.Val {
	l, ok := x.(flow.Lin)
	if !ok || len(l.T) != 1 || l.C != 0 || l.T[0].K != 1 {
		return x
	}
	if t := l.T[0].A; t.Op == "app" && strings.HasPrefix(t.Name, "conv ") && len(t.Args) == 1 {
		return stripConv(t.Args[0])
	}
	return x
}

func (v *V) number() {
	raw := v.raw(v.m.TI, 0)
	integer := v.k == "Integer"
	if it, ok := v.m.intOf(v.e); ok && integer {
		v.settle(v.parseInt(raw, it), it.t)
		return
	}
	if b, ok := floats[v.e]; ok {
		v.settle(v.parseFloat(raw, b, integer), floatType(b))
		return
	}
	switch v.e {
	case "Any":
		v.settleAny(v.parseFloat(raw, 64, integer), types.Typ[types.Float64])
	case "Number":
		v.settle(result{vals: []flow.Val{raw}}, v.m.numberT)
	default:
		v.mismatch()
	}
}

func (v *V) settleAny(r result, t types.Type) {
	if r.errs != nil {
		v.wantErr(v.m.TI, r.why, r.errs...)
		return
	}
	for i := range r.vals {
		r.vals[i] = flow.Iface{T: t, V: r.vals[i]}
	}
	v.settle(r, fieldlessAny)
}

// literal tells whether a text is a constant.
func (v *V) literal(x flow.Str, c string) bool {
	for _, t := range v.pathTerms("eqstr") {
		for _, a := range t.Args {
			if v.same(a, x) == 1 {
				return v.req(v.m.E.EqualStr(v.s, x, v.m.E.StrConst(c).(flow.Str)))
			}
		}
	}
	if !v.req(eq(x.Len, flow.C(int64(len(c))))) {
		return false
	}
	for i := range c {
		b := lin(v.m.E.Load(v.s0, x.Ptr.AddC(int64(i)), types.Typ[types.Byte]))
		if !v.req(eq(b, flow.C(int64(c[i])))) {
			return false
		}
	}
	return true
}

// unescaped is the text of a string. Without a backslash it's what's written.
func (v *V) unescaped(raw flow.Str) flow.Str {
	if v.findApp("unescape", raw) == nil {
		if v.decide(eq(raw.Len, flow.C(0))) == 1 {
			return flow.Str{}
		}
		for _, t := range v.pathTerms("IndexByte") {
			if len(t.Args) == 2 && v.same(t.Args[0], raw) == 1 && v.same(t.Args[1], flow.C('\\')) == 1 &&
				v.decide(flow.Cond{Op: flow.GE, L: lin(v.m.E.AppVal(t, v.m.results[t]))}) == -1 {
				return raw
			}
		}
	}
	return v.m.E.ToStr(v.apps("unescape", types.Typ[types.String], raw))
}

func (v *V) str() {
	raw := v.raw(v.m.TI, 1)
	if n, ok := strings.CutSuffix(v.e, "String"); ok {
		if it, ok := v.m.intOf(n); ok {
			v.settle(v.quotedInt(raw, it), it.t)
			return
		}
		if b, ok := floats[n]; ok {
			if !v.isNumber(raw, false) {
				v.settle(v.invalid("the text isn't a number", "ErrUnexpectedValue"), nil)
				return
			}
			v.settle(v.parseFloat(raw, b, false), floatType(b))
			return
		}
	}
	switch v.e {
	case "Any":
		v.settleAny(result{vals: []flow.Val{v.unescaped(raw)}}, types.Typ[types.String])
	case "Str":
		v.settle(result{vals: []flow.Val{v.unescaped(raw)}}, types.Typ[types.String])
	case "Number":
		if !v.isNumber(raw, false) {
			v.settle(v.invalid("the text isn't a number", "ErrUnexpectedValue"), nil)
			return
		}
		v.settle(result{vals: []flow.Val{raw}}, v.m.numberT)
	case "BoolString":
		switch {
		case v.literal(raw, "true"):
			v.settle(result{vals: []flow.Val{boolCond(true)}}, types.Typ[types.Bool])
		case v.literal(raw, "false"):
			v.settle(result{vals: []flow.Val{boolCond(false)}}, types.Typ[types.Bool])
		default:
			v.settle(v.invalid("the text isn't a boolean", "ErrUnexpectedValue"), nil)
		}
	case "StrString":
		bad := v.invalid(`the text isn't enclosed in \"`, "ErrUnexpectedValue")
		if !v.req(ge(raw.Len, flow.C(4))) ||
			!v.literal(flow.Str{Ptr: raw.Ptr, Len: flow.C(2)}, `\"`) ||
			!v.literal(flow.Str{Ptr: raw.Ptr.Add(raw.Len, 1).AddC(-2), Len: flow.C(2)}, `\"`) {
			v.settle(bad, nil)
			return
		}
		in := flow.Str{Ptr: raw.Ptr.AddC(2), Len: raw.Len.AddC(-4)}
		i := lin(v.apps("IndexByte", types.Typ[types.Int], in, flow.C('\\')))
		v.assume(ge(i, flow.C(-1)))
		if v.req(ge(i, flow.C(0))) {
			bad.why = "the quoted text contains escape sequences"
			v.settle(bad, nil)
			return
		}
		v.settle(result{vals: []flow.Val{in}}, types.Typ[types.String])
	case "TextUnmarshaler":
		v.unmarshalText()
	default:
		v.mismatch()
	}
}

// sliceTypes are the destinations that are slices.
func isSliceType(e string) bool { return strings.HasPrefix(e, "Slice") }

// null expects that a value is set to null.
func (v *V) null() {
	ti, si := v.m.TI, v.m.SI
	next := func() { v.valEnd(si, ti.AddC(1)) }
	zero := func(t types.Type) {
		v.allowed(v.p(), t)
		if v.o.Kind == flow.OCut {
			got := v.final(v.p(), t)
			v.must("null", v.same(got, v.m.E.Zero(t)), "the value is %s after null", flow.Show(got))
		}
		next()
	}
	ptr := types.Typ[types.UnsafePointer]
	if t := v.m.scalarType(v.e); t != nil {
		zero(t)
		return
	}
	switch v.e {
	case "Any":
		zero(fieldlessAny)
	case "Map", "MapRecur", "MapStringString", "Ptr", "PtrRecur":
		zero(ptr)
	case "StructRecur":
		v.recEnd(si, ti.AddC(1))
	case "JSONUnmarshaler":
		if v.isPointerType(si) {
			zero(ptr)
			return
		}
		v.unmarshalJSON()
	case "TextUnmarshaler":
		if v.isPointerType(si) {
			zero(ptr)
			return
		}
		next()
	default:
		if isSliceType(v.e) {
			zero(sliceT)
			return
		}
		next()
	}
}

var sliceT = types.NewSlice(types.Typ[types.Byte])

// isPointerType tells whether the type of a frame is a pointer.
func (v *V) isPointerType(fr flow.Lin) bool {
	rt := v.m.fr(v.s0, fr, "RType").(flow.Iface)
	k := lin(v.apps("invoke.Kind", types.Typ[types.Uint], rt))
	return v.req(flow.Cond{Op: flow.EQ, L: k.AddC(-22)})
}

func tupleAt(t types.Type, i int) types.Type { return t.(*types.Tuple).At(i).Type() }
