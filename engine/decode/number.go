package decode

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
)

// CheckNumber validates the methods of the type of raw numbers.
func (c *Ctor) CheckNumber(rep *Rep) {
	o := c.P.Root.Pkg.Scope().Lookup("Number")
	if o == nil {
		bail("the type Number isn't found")
	}
	for _, name := range []string{"String", "Float64", "Int64"} {
		fn := c.P.Prog.LookupMethod(o.Type(), c.P.Root.Pkg, name)
		if fn == nil || fn.Blocks == nil {
			bail("the method %s of Number isn't found", name)
		}
		c.number(fn, name, rep)
	}
}

func (c *Ctor) number(fn *ssa.Function, name string, rep *Rep) {
	arg := c.E.SymVal("n", fn.Params[0].Type())
	start := c.E.Start(fn, []flow.Val{arg})
	s0 := start.Clone()
	c.head = s0
	n := c.E.ToStr(arg)
	c.check("number", "Number."+name, s0, c.E.Explore(start), rep, func(v *V) {
		if v.o.Kind != flow.OReturn {
			v.unsure("number", "unexpected end")
			return
		}
		v.ok("number")
		if name == "String" {
			got, ok := v.o.Ret[0].(flow.Str)
			if !ok || v.same(c.E.ToStr(got), n) != 1 {
				v.fail("number", "String returns %s", flow.Show(v.o.Ret[0]))
			}
			return
		}
		var want flow.Tuple
		if name == "Float64" {
			want = v.apps("strconv.ParseFloat", tuple(types.Typ[types.Float64], errorT), n, flow.C(64)).(flow.Tuple)
		} else {
			want = v.apps("strconv.ParseInt", tuple(types.Typ[types.Int64], errorT), n, flow.C(10), flow.C(64)).(flow.Tuple)
		}
		failed := flow.Cond{Op: flow.EQ, L: want.F[1].(flow.Iface).TW}
		for i, what := range []string{"value", "error"} {
			got := v.o.Ret[i]
			if v.same(got, want.F[i]) == 1 {
				continue
			}
			if i == 0 && !v.req(failed) {
				continue // the value doesn't matter
			}
			conv := false
			flow.Visit(got, func(t *flow.Term) {
				conv = conv || t.Op == "app" && strings.HasPrefix(t.Name, "strconv.Parse")
			})
			if x, ok := got.(flow.Lin); ok && x.IsC() || conv {
				v.fail("number", "the %s returned by %s is %s instead of %s", what, name, flow.Show(got), flow.Show(want.F[i]))
			} else if x, ok := got.(flow.Iface); ok && v.decide(eq(x.TW, flow.C(0))) == 1 &&
				len(v.pathTerms("ReadNumber")) == 0 && v.req(failed.Negate()) {
				v.fail("number", "%s returns no error", name)
			} else {
				v.unsure("number", "the %s returned by %s is %s", what, name, flow.Show(got))
			}
		}
	})
}
