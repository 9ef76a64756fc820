package decode

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// CheckStale is an ownership check: once frames were appended to a slice, which may
// move them, nothing is written through it, or through a pointer into it.
func (c *Compiler) CheckStale(rep *Rep) {
	if rep.Obligations == nil {
		rep.Obligations = map[string]int{}
	}
	for _, fn := range c.P.AllFuncs() {
		if !c.P.InModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				v := c.consumed(in)
				if v == nil {
					continue
				}
				rep.Obligations["stale"]++
				for _, v := range c.sameArray(v) {
					for _, u := range c.writesThrough(v) {
						if after(b, i, u, v) {
							rep.Findings = append(rep.Findings, Finding{Cat: "stale", K: "type", E: fn.Name(), Pos: c.P.Pos(u.Pos()), Fn: fn.Name(),
								Msg: "a frame is written to through a slice that was appended to at " + c.P.Pos(in.Pos())})
						}
					}
				}
			}
		}
	}
}

// consumed returns the slice of frames an instruction appends to.
func (c *Compiler) consumed(in ssa.Instruction) ssa.Value {
	k, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := k.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && c.isStack(k.Type()) {
			return k.Call.Args[0]
		}
		return nil
	}
	if fn := k.Call.StaticCallee(); fn != nil && c.same(fn) && len(k.Call.Args) > c.iStack {
		return k.Call.Args[c.iStack]
	}
	return nil
}

// sameArray returns the values a slice may be.
func (c *Compiler) sameArray(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var visit func(x ssa.Value)
	visit = func(x ssa.Value) {
		if seen[x] {
			return
		}
		seen[x] = true
		out = append(out, x)
		switch x := x.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.Slice:
			if c.isStack(x.X.Type()) {
				visit(x.X)
			}
		}
	}
	visit(v)
	return out
}

// writesThrough returns the stores to elements of a slice.
func (c *Compiler) writesThrough(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var visit func(x ssa.Value, slice bool)
	visit = func(x ssa.Value, slice bool) {
		if seen[x] || x.Referrers() == nil {
			return
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Slice:
				if r.X == x && c.isStack(r.Type()) {
					visit(r, true)
				}
			case *ssa.IndexAddr:
				if r.X == x && slice {
					visit(r, false)
				}
			case *ssa.FieldAddr:
				if !slice {
					visit(r, false)
				}
			case *ssa.Store:
				if r.Addr == x && !slice {
					out = append(out, r)
				}
			}
		}
	}
	visit(v, true)
	return out
}

// after tells whether an instruction is executed after the i-th one of a block
// with the same value v.
func after(b *ssa.BasicBlock, i int, u ssa.Instruction, v ssa.Value) bool {
	if u.Pos() == token.NoPos {
		return false
	}
	ub := u.Block()
	var def *ssa.BasicBlock
	d, _ := v.(ssa.Instruction)
	if d != nil {
		def = d.Block()
	}
	for _, in := range b.Instrs[i:] {
		if in == d {
			return false
		}
		if in == u {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || x == def {
			continue
		}
		seen[x] = true
		if x == ub {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}
