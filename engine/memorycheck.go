package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"jscheck/load"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkMemory }

// memory follows pointers that the garbage collector or the escape analysis of
// the compiler can't see.
type memory struct {
	p   *load.Program
	r   *Report
	fns []*ssa.Function

	noescape map[*ssa.Function]bool        // declared without a body as not keeping their arguments
	callers  map[*ssa.Function][]*ssa.Call // static calls
	sites    map[*ssa.Function][]ssa.CallInstruction
	closures map[*ssa.Function][]*ssa.MakeClosure
	exprs    map[token.Pos]*ast.CallExpr // conversions by left parenthesis

	addr   map[ssa.Value]bool // integers that are addresses
	cells  map[string]token.Pos
	ret    map[*ssa.Function]map[int]bool
	local  map[ssa.Value]bool
	change bool
}

func checkMemory(c *Ctx, r *Report) {
	m := &memory{
		p: c.P, r: r, noescape: map[*ssa.Function]bool{},
		callers: map[*ssa.Function][]*ssa.Call{}, sites: map[*ssa.Function][]ssa.CallInstruction{},
		closures: map[*ssa.Function][]*ssa.MakeClosure{}, exprs: map[token.Pos]*ast.CallExpr{},
		addr: map[ssa.Value]bool{}, cells: map[string]token.Pos{},
		ret: map[*ssa.Function]map[int]bool{}, local: map[ssa.Value]bool{},
	}
	for _, fn := range c.P.AllFuncs() {
		if strings.HasPrefix(fn.Name(), "verifDriver") || generic(fn) {
			continue
		}
		if fn.Blocks == nil {
			if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
				for _, l := range d.Doc.List {
					if strings.TrimSpace(l.Text) == "//go:noescape" {
						m.noescape[fn] = true
					}
				}
			}
			continue
		}
		m.fns = append(m.fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Call:
					if f := in.Call.StaticCallee(); f != nil {
						m.callers[f] = append(m.callers[f], in)
						m.sites[f] = append(m.sites[f], in)
					}
				case ssa.CallInstruction:
					if f := in.Common().StaticCallee(); f != nil {
						m.sites[f] = append(m.sites[f], in)
					}
				case *ssa.MakeClosure:
					f := in.Fn.(*ssa.Function)
					m.closures[f] = append(m.closures[f], in)
				}
			}
		}
	}
	for path, pk := range c.P.Packages {
		if path != c.P.ModPath && !strings.HasPrefix(path, c.P.ModPath+"/") {
			continue
		}
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if e, ok := n.(*ast.CallExpr); ok {
					m.exprs[e.Lparen] = e
				}
				return true
			})
		}
	}
	r.count("functions", len(m.fns))
	r.atLeast("functions", 20)
	r.count("functions declared as keeping no argument", len(m.noescape))
	m.integers()
	m.hidden()
	m.kept()
	r.Explanation = "Integers that are addresses are followed through arithmetic, variables, arguments, results and fields; " +
		"none is stored in a destination and none that was stored is made a pointer again. " +
		"For every pointer made of an integer, and every argument of a function declared as keeping none, it is determined what it points to; " +
		"none that is stored points to a variable or a temporary which the compiler may have put on the stack for not knowing about it."
}

// generic returns true for functions that are analysed as instances.
func generic(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.TypeParams().Len() > len(fn.TypeArgs())
}

func isWord(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && (b.Kind() == types.Uintptr || b.Kind() == types.Uint64 ||
		b.Kind() == types.Int64 || b.Kind() == types.Uint || b.Kind() == types.Int)
}

func isPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// base returns what an address is within.
func base(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// cell names the variables an address may be of: "" if it's memory of unknown type.
func (m *memory) cell(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		t := a.X.Type().Underlying().(*types.Pointer).Elem()
		if n, ok := t.(*types.Named); ok {
			return fmt.Sprintf("%s.%s", n.Origin(), n.Underlying().(*types.Struct).Field(a.Field).Name())
		}
		return fmt.Sprintf("%s.%d", t, a.Field)
	case *ssa.Global:
		return a.String()
	case *ssa.IndexAddr:
		switch x := a.X.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return m.cell(x.X) + "[]"
			}
		case *ssa.FieldAddr, *ssa.Global:
			return m.cell(x) + "[]"
		}
		return "[]" + a.Type().String()
	}
	return ""
}

// raw returns true if the memory at address a is that of a destination: the
// address is a converted unsafe.Pointer.
func raw(a ssa.Value) bool {
	cv, ok := base(a).(*ssa.Convert)
	return ok && isUnsafe(cv.X.Type())
}

// localVar returns the local variable of an address, if any.
func localVar(a ssa.Value) ssa.Value {
	switch b := base(a).(type) {
	case *ssa.Alloc:
		return b
	case *ssa.FreeVar:
		if _, ok := b.Type().Underlying().(*types.Pointer); ok {
			return b
		}
	}
	return nil
}

func (m *memory) mark(v ssa.Value) {
	if v != nil && !m.addr[v] {
		m.addr[v] = true
		m.change = true
	}
}

// pointsToPointers returns true if a converted pointer is to memory that has
// pointers in it as the type it had before tells.
func pointsToPointers(a ssa.Value) bool {
	cv, ok := base(a).(*ssa.Convert)
	if !ok || !isUnsafe(cv.X.Type()) {
		return false
	}
	in, ok := cv.X.(*ssa.Convert)
	if !ok {
		return false
	}
	pt, ok := in.X.Type().Underlying().(*types.Pointer)
	return ok && isPtr(pt.Elem())
}

// integers follows the integers that are addresses.
func (m *memory) integers() {
	nFrom := 0
	for i := 0; i == 0 || m.change; i++ {
		m.change = false
		nFrom = 0
		for _, fn := range m.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if cv, ok := in.(*ssa.Convert); ok && isPtr(cv.X.Type()) && isWord(cv.Type()) {
						nFrom++
						m.mark(cv)
					}
					m.integer(fn, in)
				}
			}
		}
		if i > 60 {
			m.r.undecided("the propagation doesn't end")
			break
		}
	}
	m.r.count("conversions of pointers to integers", nFrom)
	nTo, nStores := 0, 0
	for _, fn := range m.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !m.addr[in.Val] {
						continue
					}
					nStores++
					if raw(in.Addr) && localVar(in.Addr) == nil {
						m.report(fn, in.Pos(), "integer", "an address is stored as %s: the garbage collector doesn't see it", in.Val.Type())
					}
				case *ssa.Convert:
					if !isWord(in.X.Type()) || !isUnsafe(in.Type()) {
						continue
					}
					nTo++
					if pos, what := m.stored(in.X, map[ssa.Value]bool{}); what != "" {
						m.report(fn, in.Pos(), "integer",
							"a pointer is made of an address kept as an integer in %s (stored at %s): what it points to may have been moved or freed",
							what, m.p.Pos(pos))
					}
				}
			}
		}
	}
	m.r.count("integers made pointers", nTo)
	m.r.count("stores of addresses as integers", nStores)
}

func (m *memory) integer(fn *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Phi:
		for _, e := range in.Edges {
			if m.addr[e] {
				m.mark(in)
			}
		}
	case *ssa.BinOp:
		x, y := m.addr[in.X], m.addr[in.Y]
		if !x && !y || !isWord(in.Type()) {
			return
		}
		switch in.Op {
		case token.ADD, token.OR, token.XOR, token.AND_NOT:
			m.mark(in)
		case token.SUB:
			if x && !y {
				m.mark(in)
			}
		case token.AND:
			if c, ok := in.Y.(*ssa.Const); ok && c.Value != nil {
				if u := c.Uint64(); u < 1<<32 {
					return
				}
			}
			m.mark(in)
		}
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return
		}
		if l := localVar(in.X); l != nil {
			if m.local[l] && m.holds(in.Type()) {
				m.mark(in)
			}
			return
		}
		if isWord(in.Type()) && pointsToPointers(in.X) {
			m.mark(in)
			return
		}
		if c := m.cell(in.X); c != "" && m.holds(in.Type()) {
			if _, ok := m.cells[c]; ok {
				m.mark(in)
			}
		}
	case *ssa.Convert:
		if m.addr[in.X] && isWord(in.Type()) {
			m.mark(in)
		}
	case *ssa.ChangeType:
		if m.addr[in.X] {
			m.mark(in)
		}
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && m.ret[f][in.Index] {
				m.mark(in)
			}
		}
	case *ssa.Field:
		if m.addr[in.X] && m.holds(in.Type()) {
			m.mark(in)
		}
	case *ssa.Index:
		if m.addr[in.X] && m.holds(in.Type()) {
			m.mark(in)
		}
	case *ssa.Store:
		if !m.addr[in.Val] {
			return
		}
		if l := localVar(in.Addr); l != nil {
			if !m.local[l] {
				m.local[l] = true
				m.change = true
			}
			return
		}
		if c := m.cell(in.Addr); c != "" {
			if _, ok := m.cells[c]; !ok {
				m.cells[c] = in.Pos()
				m.change = true
			}
		}
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if i >= len(f.FreeVars) {
				break
			}
			if m.addr[b] {
				m.mark(f.FreeVars[i])
			}
			if m.local[b] != m.local[f.FreeVars[i]] {
				m.local[b], m.local[f.FreeVars[i]] = true, true
				m.change = true
			}
		}
	case *ssa.Return:
		for i, v := range in.Results {
			if m.addr[v] && !m.ret[fn][i] {
				if m.ret[fn] == nil {
					m.ret[fn] = map[int]bool{}
				}
				m.ret[fn][i] = true
				m.change = true
			}
		}
	case ssa.CallInstruction:
		f := in.Common().StaticCallee()
		if f == nil || in.Common().IsInvoke() {
			return
		}
		v, _ := in.(ssa.Value)
		switch f.String() {
		case "(reflect.Value).Pointer", "(reflect.Value).UnsafeAddr":
			m.mark(v)
			return
		}
		if f.Blocks == nil || !m.p.InModule(f) {
			return
		}
		for i, a := range in.Common().Args {
			if i < len(f.Params) && m.addr[a] {
				m.mark(f.Params[i])
			}
		}
		if v != nil && f.Signature.Results().Len() == 1 && m.ret[f][0] {
			m.mark(v)
		}
	}
}

// holds returns true if a value of type t may hold an integer that is an address.
func (m *memory) holds(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if m.holds(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return m.holds(u.Elem())
	}
	return isWord(t)
}

// stored returns where an integer made a pointer was kept.
func (m *memory) stored(v ssa.Value, seen map[ssa.Value]bool) (token.Pos, string) {
	if seen[v] || !m.addr[v] {
		return 0, ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if p, w := m.stored(e, seen); w != "" {
				return p, w
			}
		}
	case *ssa.BinOp:
		if p, w := m.stored(x.X, seen); w != "" {
			return p, w
		}
		return m.stored(x.Y, seen)
	case *ssa.Convert:
		return m.stored(x.X, seen)
	case *ssa.ChangeType:
		return m.stored(x.X, seen)
	case *ssa.Field:
		return m.stored(x.X, seen)
	case *ssa.Index:
		return m.stored(x.X, seen)
	case *ssa.UnOp:
		if localVar(x.X) != nil {
			return 0, ""
		}
		if c := m.cell(x.X); c != "" {
			if p, ok := m.cells[c]; ok {
				return p, c
			}
		}
	case *ssa.Parameter:
		fn := x.Parent()
		for _, c := range m.sites[fn] {
			for i, p := range fn.Params {
				if p == x && i < len(c.Common().Args) {
					if p, w := m.stored(c.Common().Args[i], seen); w != "" {
						return p, w
					}
				}
			}
		}
	}
	return 0, ""
}

func (m *memory) report(fn *ssa.Function, pos token.Pos, rule, format string, args ...any) {
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	name := f.Name()
	if f.Origin() != nil {
		name = f.Origin().Name()
	}
	m.r.add(rule, m.p.Pos(pos), name, format, args...)
}

// small returns true if calls of f may be inlined by the compiler.
func (m *memory) small(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			}
			n++
		}
	}
	return n <= 80 && f.Recover == nil
}

// root is something a pointer may point to.
type root struct {
	v      ssa.Value // a variable, a parameter or an instruction that makes memory
	hidden bool      // the compiler doesn't know
}

// roots determines what v may point to. Memory that is loaded from memory
// is on the heap as far as v is concerned.
func (m *memory) roots(v ssa.Value, hidden bool, seen map[root]bool, out map[root]bool, depth int) {
	k := root{v, hidden}
	if seen[k] || depth > 40 {
		return
	}
	seen[k] = true
	next := func(x ssa.Value, h bool) { m.roots(x, h, seen, out, depth+1) }
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			next(e, hidden)
		}
	case *ssa.ChangeType:
		next(x.X, hidden)
	case *ssa.Slice:
		next(x.X, hidden)
	case *ssa.FieldAddr:
		next(x.X, hidden)
	case *ssa.IndexAddr:
		next(x.X, hidden)
	case *ssa.BinOp:
		if m.addr[x] {
			next(x.X, hidden)
			next(x.Y, hidden)
		} else if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			out[root{x, hidden}] = true // a concatenation
		}
	case *ssa.MultiConvert:
		out[root{x, hidden}] = true
	case *ssa.Convert:
		ft, tt := x.X.Type().Underlying(), x.Type().Underlying()
		switch {
		case isPtr(ft) && isPtr(tt):
			next(x.X, hidden)
		case isPtr(ft) && isWord(tt):
			next(x.X, hidden)
		case isWord(ft) && isUnsafe(tt):
			if m.addr[x.X] {
				next(x.X, hidden || !m.seenByCompiler(x))
			}
		case isWord(ft) && isWord(tt):
			next(x.X, hidden)
		default:
			_, fs := ft.(*types.Slice)
			_, ts := tt.(*types.Slice)
			fb, _ := ft.(*types.Basic)
			tb, _ := tt.(*types.Basic)
			fstr := fb != nil && fb.Info()&types.IsString != 0
			tstr := tb != nil && tb.Info()&types.IsString != 0
			if fs && tstr || fstr && ts || fb != nil && tstr && !fstr {
				out[root{x, hidden}] = true // a copy
			} else if fs && ts || fstr && tstr {
				next(x.X, hidden)
			}
		}
	case *ssa.MakeSlice, *ssa.Alloc, *ssa.MakeMap:
		out[root{x, hidden}] = true
	case *ssa.Parameter:
		out[root{x, hidden}] = true
		if fn := x.Parent(); fn != nil && !token.IsExported(fn.Name()) {
			for _, c := range m.sites[fn] {
				for i, p := range fn.Params {
					if p == x && i < len(c.Common().Args) {
						next(c.Common().Args[i], hidden)
					}
				}
			}
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for _, mc := range m.closures[fn] {
			for i, fv := range fn.FreeVars {
				if fv == x && i < len(mc.Bindings) {
					next(mc.Bindings[i], hidden)
				}
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if a := m.alloc(x.X); a != nil && base(x.X) == x.X { // a local variable
			for _, st := range m.storesTo(a) {
				next(st.Val, hidden)
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			m.rootsOfCall(c, x.Index, hidden, next, out)
		} else if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			next(ta.X, hidden)
		}
	case *ssa.TypeAssert:
		next(x.X, hidden)
	case *ssa.MakeInterface:
		next(x.X, hidden)
	case *ssa.ChangeInterface:
		next(x.X, hidden)
	case *ssa.Call:
		m.rootsOfCall(x, 0, hidden, next, out)
	}
}

func (m *memory) rootsOfCall(c *ssa.Call, result int, hidden bool, next func(ssa.Value, bool), out map[root]bool) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "Add", "SliceData", "StringData", "String", "Slice":
			next(c.Call.Args[0], hidden)
		case "append":
			next(c.Call.Args[0], hidden)
		}
		return
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return
	}
	if f.Blocks == nil || !m.p.InModule(f) {
		if m.p.InModule(f) && m.noescape[f] && len(f.Params) == 1 {
			for _, a := range c.Call.Args {
				if isPtr(a.Type()) {
					next(a, true)
				}
			}
		}
		return
	}
	// What the result is in terms of the arguments, and, if the call may be
	// inlined, of what f makes.
	inner := map[root]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok && result < len(ret.Results) {
				m.roots(ret.Results[result], hidden, map[root]bool{}, inner, 20)
			}
		}
	}
	for rt := range inner {
		if p, ok := rt.v.(*ssa.Parameter); ok && p.Parent() == f {
			for i, q := range f.Params {
				if p == q && i < len(c.Call.Args) {
					next(c.Call.Args[i], rt.hidden)
				}
			}
			continue
		}
		if in, ok := rt.v.(ssa.Instruction); ok && in.Parent() == f && (m.small(f) || rt.hidden && !hidden) {
			out[rt] = true
		}
	}
}

// seenByCompiler returns true if the compiler follows the pointer an integer is
// made of into the pointer made of the integer: both conversions are in
// the same expression.
func (m *memory) seenByCompiler(to *ssa.Convert) bool {
	outer := m.exprs[to.Pos()]
	if outer == nil {
		return false
	}
	ok := true
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if !m.addr[v] || !ok {
			return
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			walk(x.X, depth+1)
			walk(x.Y, depth+1)
		case *ssa.Convert:
			if isPtr(x.X.Type()) {
				e := m.exprs[x.Pos()]
				if e == nil || e.Pos() < outer.Pos() || e.End() > outer.End() {
					ok = false
				}
				return
			}
			walk(x.X, depth+1)
		default:
			ok = false
		}
	}
	walk(to.X, 0)
	return ok
}

// alloc returns the variable at an address.
func (m *memory) alloc(a ssa.Value) *ssa.Alloc {
	switch b := base(a).(type) {
	case *ssa.Alloc:
		return b
	case *ssa.FreeVar:
		fn := b.Parent()
		for _, mc := range m.closures[fn] {
			for i, fv := range fn.FreeVars {
				if fv == b && i < len(mc.Bindings) {
					return m.alloc(mc.Bindings[i])
				}
			}
		}
	}
	return nil
}

// uses returns the instructions using a variable, in closures as well.
func (m *memory) uses(a ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if a.Referrers() == nil {
		return nil
	}
	for _, in := range *a.Referrers() {
		out = append(out, in)
		if mc, ok := in.(*ssa.MakeClosure); ok {
			f := mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				if b == a && i < len(f.FreeVars) {
					out = append(out, m.uses(f.FreeVars[i])...)
				}
			}
		}
	}
	return out
}

func (m *memory) storesTo(a ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	for _, in := range m.uses(a) {
		if st, ok := in.(*ssa.Store); ok && m.alloc(st.Addr) == a {
			out = append(out, st)
		}
	}
	return out
}

// escapes returns true if the compiler knows that v (or memory it refers to) is kept.
// It returns true if in doubt.
func (m *memory) escapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	_, isVar := v.(*ssa.Alloc)
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == v {
				continue
			}
			if a := m.alloc(in.Addr); a != nil {
				for _, u := range m.uses(a) {
					if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if m.escapes(ld, seen) {
							return true
						}
					} else if _, ok := u.(*ssa.Store); !ok {
						if _, ok := u.(*ssa.MakeClosure); !ok {
							if uv, ok := u.(ssa.Value); ok && m.escapes(uv, seen) {
								return true
							}
						}
					}
				}
				continue
			}
			return true
		case *ssa.Convert:
			if isWord(in.Type()) {
				// The compiler doesn't follow variables of integers.
				for _, u := range m.pointersOf(in, map[ssa.Value]bool{}) {
					if m.seenByCompiler(u) && m.escapes(u, seen) {
						return true
					}
				}
				continue
			}
			if isPtr(in.X.Type()) && isPtr(in.Type()) || types.Identical(in.X.Type().Underlying(), in.Type().Underlying()) {
				if m.escapes(in, seen) {
					return true
				}
			}
		case *ssa.UnOp:
			if in.Op == token.MUL && !isVar {
				continue // what it points to is elsewhere
			}
		case *ssa.ChangeType, *ssa.Phi, *ssa.Slice, *ssa.FieldAddr, *ssa.IndexAddr,
			*ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Field:
			if m.escapes(in.(ssa.Value), seen) {
				return true
			}
		case *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.Index:
		case *ssa.MakeClosure:
			f := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b != v || i >= len(f.FreeVars) {
					continue
				}
				if m.escapes(f.FreeVars[i], seen) {
					return true
				}
			}
			if !isVar && m.escapes(in, seen) {
				return true
			}
		case *ssa.Return:
			f := in.Parent()
			if !m.small(f) || token.IsExported(f.Name()) || f.Parent() != nil {
				if _, ok := v.(*ssa.Parameter); !ok {
					return true
				}
			}
			for _, c := range m.callers[f] {
				if m.escapes(c, seen) {
					return true
				}
			}
		case ssa.CallInstruction:
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
			c := in.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "Add", "SliceData", "StringData", "String", "Slice":
					if m.escapes(in.(ssa.Value), seen) {
						return true
					}
				case "append":
					if len(c.Args) > 1 && c.Args[1] == v {
						if t, ok := v.Type().Underlying().(*types.Slice); ok && !refers(t.Elem()) {
							continue
						}
						if _, ok := v.Type().Underlying().(*types.Basic); ok {
							continue
						}
						return true
					}
					if m.escapes(in.(ssa.Value), seen) {
						return true
					}
				}
				continue
			}
			f := c.StaticCallee()
			if f == nil || c.IsInvoke() {
				if c.Value == v && !c.IsInvoke() {
					continue // a call of v
				}
				return true
			}
			if f.Blocks == nil || !m.p.InModule(f) {
				if m.noescape[f] {
					continue
				}
				if !m.p.InModule(f) && harmless(f) {
					continue
				}
				return true
			}
			for i, a := range c.Args {
				if a == v && i < len(f.Params) && m.escapes(f.Params[i], seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// harmless returns true for functions of the standard library which don't keep
// their arguments.
func harmless(f *ssa.Function) bool {
	pk := f.Package()
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Package()
	}
	if pk == nil {
		return false
	}
	switch pk.Pkg.Path() {
	case "strings", "bytes":
		return strings.HasPrefix(f.Name(), "Index") || strings.HasPrefix(f.Name(), "Contains") ||
			strings.HasPrefix(f.Name(), "Equal") || strings.HasPrefix(f.Name(), "Has") ||
			f.Name() == "Count" || f.Name() == "Compare"
	case "strconv":
		return strings.HasPrefix(f.Name(), "Parse") || strings.HasPrefix(f.Name(), "Append")
	case "unicode/utf8", "math", "math/bits":
		return true
	}
	return false
}

// pointersOf returns the pointers made of an integer.
func (m *memory) pointersOf(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Convert {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	var out []*ssa.Convert
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.Convert:
			if isUnsafe(in.Type()) {
				out = append(out, in)
			} else {
				out = append(out, m.pointersOf(in, seen)...)
			}
		case *ssa.BinOp, *ssa.Phi, *ssa.ChangeType:
			out = append(out, m.pointersOf(in.(ssa.Value), seen)...)
		}
	}
	return out
}

func (m *memory) describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Alloc:
		if v.Comment != "" {
			return "variable " + v.Comment
		}
		return "a variable"
	case *ssa.Parameter:
		return "what parameter " + v.Name() + " points to"
	case *ssa.MakeSlice, *ssa.MakeMap:
		return "a temporary"
	}
	return "the copy made at " + m.p.Pos(v.Pos())
}

// hidden looks for pointers hidden from the escape analysis that are kept.
func (m *memory) hidden() {
	n := 0
	for _, fn := range m.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					if localVar(in.Addr) != nil {
						continue
					}
					v = in.Val
				case *ssa.MapUpdate:
					v = in.Value
				case *ssa.Send:
					v = in.X
				case ssa.CallInstruction:
					c := in.Common()
					f := c.StaticCallee()
					if f == nil && !c.IsInvoke() {
						continue
					}
					if f != nil && (f.Blocks != nil || m.noescape[f] || !m.p.InModule(f)) {
						continue
					}
					for _, a := range c.Args {
						if isPtr(a.Type()) {
							n++
							m.checkHidden(fn, in.Pos(), a, "given to "+callName(c))
						}
					}
					continue
				}
				if v == nil || !refers(v.Type()) {
					continue
				}
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					continue
				}
				n++
				m.checkHidden(fn, in.Pos(), v, "stored")
			}
		}
	}
	m.r.count("stores of pointers and arguments of functions that keep them", n)
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return "a function"
}

func (m *memory) checkHidden(fn *ssa.Function, pos token.Pos, v ssa.Value, what string) {
	out := map[root]bool{}
	m.roots(v, false, map[root]bool{}, out, 0)
	for rt := range out {
		if rt.hidden && isPtrRoot(rt.v) && !m.escapes(rt.v, map[ssa.Value]bool{}) {
			m.report(fn, pos, "hidden",
				"a pointer to %s is %s after a conversion hid it from the compiler, which may have put that on the stack",
				m.describe(rt.v), what)
		}
	}
}

func isPtrRoot(v ssa.Value) bool {
	if _, ok := v.(*ssa.Parameter); ok {
		return refers(v.Type())
	}
	return true
}

// kept looks for temporaries given to functions that keep what they're given
// and are declared as if they didn't.
func (m *memory) kept() {
	n := 0
	for _, fn := range m.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || !m.noescape[f] || f.Name() == "typedmemclr" {
					continue
				}
				for i, a := range call.Call.Args {
					var kept []ssa.Value
					t := a.Type().Underlying()
					if bt, ok := t.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						kept = append(kept, a)
					} else if isPtr(t) {
						// The memory pointed to is copied.
						out := map[root]bool{}
						m.roots(a, false, map[root]bool{}, out, 0)
						for rt := range out {
							al, ok := rt.v.(*ssa.Alloc)
							if !ok {
								continue
							}
							for _, st := range m.storesTo(al) {
								kept = append(kept, st.Val)
							}
						}
					}
					for _, v := range kept {
						vt := v.Type().Underlying()
						if bt, ok := vt.(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
							if !refers(v.Type()) {
								continue
							}
						}
						n++
						out := map[root]bool{}
						m.roots(v, false, map[root]bool{}, out, 0)
						for rt := range out {
							if p, ok := rt.v.(*ssa.Parameter); ok && p.Parent() != fn && p.Parent() != fn.Parent() {
								continue
							}
							if !m.escapes(rt.v, map[ssa.Value]bool{}) {
								m.report(fn, call.Pos(), "kept",
									"argument %d of %s refers to %s, which the compiler may have put on the stack as %s is declared to keep nothing",
									i+1, f.Name(), m.describe(rt.v), f.Name())
							}
						}
					}
				}
			}
		}
	}
	m.r.count("arguments kept by functions declared as keeping none", n)
}
