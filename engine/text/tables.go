package text

import (
	"go/constant"
	"go/types"

	"jscheck/consts"

	"golang.org/x/tools/go/ssa"
)

// ConstTables extracts the contents of the package's global integer arrays that
// are initialized with constants and never written to or leaked afterwards.
func ConstTables(pkg *ssa.Package, fns []*ssa.Function, sizes types.Sizes) map[*ssa.Global]*Table {
	out := literalTables(pkg, fns)
	for g, v := range consts.Globals(pkg, fns, sizes) {
		a, ok := v.(consts.Agg)
		at, ok2 := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || !ok2 || !isInt(at.Elem()) || out[g] != nil {
			continue
		}
		t := &Table{V: make([]int64, len(a))}
		for i, x := range a {
			c, ok := x.(constant.Value)
			if !ok {
				t = nil
				break
			}
			if n, exact := constant.Int64Val(c); exact {
				t.V[i] = n
			} else {
				u, _ := constant.Uint64Val(c)
				t.V[i] = int64(u)
			}
		}
		if t != nil {
			out[g] = t
		}
	}
	return out
}

// literalTables are those that are given by literals.
func literalTables(pkg *ssa.Package, fns []*ssa.Function) map[*ssa.Global]*Table {
	out := map[*ssa.Global]*Table{}
	for _, m := range pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		at, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || !isInt(at.Elem()) || at.Len() > 1<<16 {
			continue
		}
		out[g] = &Table{V: make([]int64, at.Len())}
	}
	// elem applies the constant element stores through ia to t.
	elem := func(ia *ssa.IndexAddr, t *Table, write bool) bool {
		for _, r := range *ia.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				i, ok1 := ia.Index.(*ssa.Const)
				v, ok2 := r.Val.(*ssa.Const)
				if !write || r.Addr != ia || !ok1 || !ok2 {
					return false
				}
				if i.Int64() < 0 || i.Int64() >= int64(len(t.V)) {
					return false
				}
				t.V[i.Int64()] = constInt64(v)
			default:
				return false
			}
		}
		return true
	}
	// literal returns the contents of a composite literal built in a local.
	literal := func(v ssa.Value, n int) *Table {
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		al, ok := ld.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		t := &Table{V: make([]int64, n)}
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				if !elem(r, t, true) {
					return nil
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return t
	}
	check := func(fn *ssa.Function, isInit bool) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.IndexAddr:
					if g, ok := in.X.(*ssa.Global); ok && out[g] != nil {
						if !elem(in, out[g], isInit) {
							delete(out, g)
						}
						continue
					}
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && out[g] != nil {
						t := literal(in.Val, len(out[g].V))
						if !isInit || t == nil {
							delete(out, g)
						} else {
							out[g] = t
						}
						continue
					}
				case *ssa.UnOp:
					// Copying the whole array doesn't change it.
					if _, ok := in.X.(*ssa.Global); ok {
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						delete(out, g)
					}
				}
			}
		}
	}
	init := pkg.Func("init")
	if init != nil {
		check(init, true)
	}
	for _, fn := range fns {
		if fn != init {
			check(fn, false)
		}
	}
	return out
}

func constInt64(c *ssa.Const) int64 {
	if isUnsigned(c.Type()) {
		return int64(c.Uint64())
	}
	return c.Int64()
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
