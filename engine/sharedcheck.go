package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"jscheck/load"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = checkShared }

// origin tells why a value refers to memory that outlives a call.
type origin struct {
	what string // the variable or parameter
	may  bool   // only one of several possibilities
}

type fieldKey struct {
	t     string
	field int
}

// sharing finds what may refer to memory reachable from package-level variables
// or from options, and what is done to it.
type sharing struct {
	p       *load.Program
	r       *Report
	fns     []*ssa.Function
	val     map[ssa.Value]origin
	content map[ssa.Value]origin // contents of local variables
	fields  map[fieldKey]origin
	stored  map[fieldKey][2]int // number of stores of shared and of other values
	ret     map[*ssa.Function]map[int]origin
	zero    map[*ssa.Global]bool // refer to memory of size 0
	callers map[*ssa.Function][]ssa.CallInstruction
	initial map[*ssa.Function]bool // run at initialisation only, or once
	writes  map[writeKey]int
	changed bool
	nstores int
}

type writeKey struct {
	fn    *ssa.Function
	param int
}

// refers returns true if a value of type t may refer to memory that can be written.
func refers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Interface:
		return u.Empty()
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refers(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func zeroSized(p *load.Program, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		t = u.Elem()
	case *types.Slice:
		t = u.Elem()
	default:
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.NumFields() == 0
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

// syncType returns true for the types made for being shared.
func syncType(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func checkShared(c *Ctx, r *Report) {
	s := &sharing{
		p: c.P, r: r, val: map[ssa.Value]origin{}, content: map[ssa.Value]origin{},
		fields: map[fieldKey]origin{}, stored: map[fieldKey][2]int{},
		ret:  map[*ssa.Function]map[int]origin{},
		zero: map[*ssa.Global]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		initial: map[*ssa.Function]bool{}, writes: map[writeKey]int{},
	}
	for _, fn := range c.P.AllFuncs() {
		if fn.Blocks == nil || strings.HasPrefix(fn.Name(), "verifDriver") {
			continue
		}
		s.fns = append(s.fns, fn)
	}
	r.count("functions", len(s.fns))
	r.atLeast("functions", 20)
	s.globals()
	s.phases()
	s.options()
	for i := 0; i == 0 || s.changed; i++ {
		s.changed = false
		for _, fn := range s.fns {
			s.propagate(fn)
		}
		if i > 60 {
			r.undecided("the propagation doesn't end")
			break
		}
	}
	for _, fn := range s.fns {
		if !s.initial[fn] {
			s.sinks(fn)
		}
	}
	r.count("values referring to shared memory", len(s.val))
	r.count("stores and calls inspected", s.nstores)
	r.Explanation = "Every value that may refer to memory reachable from a package-level variable or from options " +
		"(addresses, loads, conversions, fields, arguments and results, over all functions and instances) is determined by a fixpoint; " +
		"no store, map update, append, copy or call writes through one after initialisation, and none is handed to a destination."
}

// globals finds the package-level variables.
func (s *sharing) globals() {
	n := 0
	for path, pk := range s.p.Pkgs {
		if path != s.p.ModPath && !strings.HasPrefix(path, s.p.ModPath+"/") {
			continue
		}
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(g.Name(), "init$") {
				continue
			}
			n++
			elem := g.Type().Underlying().(*types.Pointer).Elem()
			s.zero[g] = zeroSized(s.p, elem)
		}
		// A pointer to nothing may be given to anyone.
		if init := pk.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					v := st.Val
					for {
						if cv, ok := v.(*ssa.Convert); ok {
							v = cv.X
						} else if cv, ok := v.(*ssa.ChangeType); ok {
							v = cv.X
						} else {
							break
						}
					}
					if zeroSized(s.p, v.Type()) {
						s.zero[g] = true
					}
					if mk, ok := v.(*ssa.Slice); ok { // a slice of an array of length 0
						if zeroSized(s.p, mk.X.Type()) {
							s.zero[g] = true
						}
					}
				}
			}
		}
	}
	s.r.count("package-level variables", n)
	s.r.atLeast("package-level variables", 10)
}

func isOnce(call ssa.CallInstruction) bool {
	f := call.Common().StaticCallee()
	if f == nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	n := f.String()
	return n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.OnceFunc") || strings.HasPrefix(n, "sync.OnceValue")
}

// phases finds the functions that run at initialisation only.
func (s *sharing) phases() {
	used := map[*ssa.Function]int{}  // references other than static calls
	once := map[*ssa.Function]bool{} // given to sync.Once
	for _, fn := range s.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				if isCall {
					if f := call.Common().StaticCallee(); f != nil && call.Common().Method == nil {
						s.callers[f] = append(s.callers[f], call)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if isCall && call.Common().Value == *op {
						continue
					}
					if isCall && isOnce(call) {
						once[f] = true
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						all := true
						for _, ref := range *mc.Referrers() {
							if rc, ok := ref.(ssa.CallInstruction); !ok || !isOnce(rc) {
								all = false
							}
						}
						if all {
							once[f] = true
							continue
						}
					}
					used[f]++
				}
			}
		}
	}
	isInit := func(fn *ssa.Function) bool {
		return fn.Parent() == nil && fn.Signature.Recv() == nil &&
			(fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
	}
	for _, fn := range s.fns {
		if isInit(fn) || once[fn] && used[fn] == 0 {
			s.initial[fn] = true
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range s.fns {
			if s.initial[fn] || used[fn] > 0 || fn.Signature.Recv() != nil || token.IsExported(fn.Name()) {
				continue
			}
			cs := s.callers[fn]
			all := len(cs) > 0
			for _, c := range cs {
				all = all && s.initial[c.Parent()]
			}
			if all {
				s.initial[fn] = true
				again = true
			}
		}
	}
}

// options seeds the parameters which may be given exported package-level
// variables ("default options") by any caller.
func (s *sharing) options() {
	var shared []*ssa.Global
	for path, pk := range s.p.Pkgs {
		if path != s.p.ModPath {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && token.IsExported(g.Name()) {
				if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); ok {
					shared = append(shared, g)
				}
			}
		}
	}
	n := 0
	for _, fn := range s.fns {
		for _, par := range fn.Params {
			for _, g := range shared {
				if types.Identical(par.Type(), g.Type().Underlying().(*types.Pointer).Elem()) {
					s.mark(par, origin{what: g.Name() + " (parameter " + par.Name() + ")"})
					n++
				}
			}
		}
	}
	s.r.count("parameters that may be default options", n)
}

func (s *sharing) mark(v ssa.Value, o origin) {
	if v == nil || !refers(v.Type()) || zeroSized(s.p, v.Type()) {
		return
	}
	if old, ok := s.val[v]; ok && (old.may == o.may || !old.may) {
		return
	}
	s.val[v] = o
	s.changed = true
}

// of returns what v refers to.
func (s *sharing) of(v ssa.Value) (origin, bool) {
	if g, ok := v.(*ssa.Global); ok {
		if s.zero[g] || g.Pkg == nil {
			return origin{}, false
		}
		path := g.Pkg.Pkg.Path()
		if path != s.p.ModPath && !strings.HasPrefix(path, s.p.ModPath+"/") {
			return origin{}, false
		}
		return origin{what: g.Name()}, true
	}
	o, ok := s.val[v]
	return o, ok
}

func (s *sharing) key(base types.Type, field int) fieldKey {
	if pt, ok := base.Underlying().(*types.Pointer); ok {
		base = pt.Elem()
	}
	if n, ok := base.(*types.Named); ok {
		return fieldKey{n.Origin().String(), field}
	}
	return fieldKey{base.String(), field}
}

// loaded returns what the memory at addr contains.
func (s *sharing) loaded(addr ssa.Value) (origin, bool) {
	if o, ok := s.of(addr); ok {
		if pt, ok := addr.Type().Underlying().(*types.Pointer); ok && syncType(pt.Elem()) {
			return origin{}, false
		}
		return o, true
	}
	if o, ok := s.content[addr]; ok {
		return o, true
	}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		k := s.key(fa.X.Type(), fa.Field)
		o, ok := s.fields[k]
		return o, ok
	}
	return origin{}, false
}

func (s *sharing) propagate(fn *ssa.Function) {
	from := func(dst, src ssa.Value) {
		if o, ok := s.of(src); ok {
			s.mark(dst, o)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				from(in, in.X)
			case *ssa.IndexAddr:
				from(in, in.X)
			case *ssa.Field:
				if o, ok := s.of(in.X); ok {
					s.mark(in, o)
				} else if o, ok := s.fields[s.key(in.X.Type(), in.Field)]; ok {
					s.mark(in, o)
				}
			case *ssa.Index:
				from(in, in.X)
			case *ssa.Slice:
				from(in, in.X)
			case *ssa.ChangeType:
				from(in, in.X)
			case *ssa.Convert:
				if _, ok := in.X.Type().Underlying().(*types.Basic); ok ||
					types.Identical(in.X.Type().Underlying(), in.Type().Underlying()) {
					from(in, in.X)
				} else if _, ok := in.Type().Underlying().(*types.Slice); !ok {
					from(in, in.X)
				}
			case *ssa.MultiConvert:
				from(in, in.X)
			case *ssa.SliceToArrayPointer:
				from(in, in.X)
			case *ssa.ChangeInterface:
				from(in, in.X)
			case *ssa.MakeInterface:
				from(in, in.X)
			case *ssa.TypeAssert:
				from(in, in.X)
			case *ssa.Extract:
				if c, ok := in.Tuple.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil {
						if o, ok := s.ret[f][in.Index]; ok {
							s.mark(in, o)
						}
						continue
					}
				}
				from(in, in.Tuple)
			case *ssa.Lookup:
				from(in, in.X)
			case *ssa.Range:
				if o, ok := s.of(in.X); ok {
					if _, had := s.val[in]; !had {
						s.val[in] = o
						s.changed = true
					}
				}
			case *ssa.Next:
				if o, ok := s.val[in.Iter]; ok {
					s.mark(in, o)
				}
			case *ssa.Phi:
				n := 0
				var some origin
				for _, e := range in.Edges {
					if o, ok := s.of(e); ok {
						n++
						if n == 1 || !o.may {
							some = o
						}
					}
				}
				if n > 0 {
					s.mark(in, some)
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					if o, ok := s.loaded(in.X); ok {
						s.mark(in, o)
					}
				}
			case *ssa.Store:
				o, ok := s.of(in.Val)
				if !ok || !refers(in.Val.Type()) {
					continue
				}
				switch a := in.Addr.(type) {
				case *ssa.Alloc:
					if _, had := s.content[a]; !had {
						s.content[a] = o
						s.changed = true
					}
				case *ssa.FreeVar:
					if _, had := s.content[a]; !had {
						s.content[a] = o
						s.changed = true
					}
				case *ssa.FieldAddr:
					k := s.key(a.X.Type(), a.Field)
					if _, had := s.fields[k]; !had {
						s.fields[k] = o
						s.changed = true
					}
				}
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				for i, bnd := range in.Bindings {
					if i < len(f.FreeVars) {
						from(f.FreeVars[i], bnd)
						if o, ok := s.content[bnd]; ok {
							if _, had := s.content[f.FreeVars[i]]; !had {
								s.content[f.FreeVars[i]] = o
								s.changed = true
							}
						}
					}
				}
			case *ssa.Return:
				for i, v := range in.Results {
					if o, ok := s.of(v); ok && refers(v.Type()) {
						if s.ret[fn] == nil {
							s.ret[fn] = map[int]origin{}
						}
						if _, had := s.ret[fn][i]; !had {
							s.ret[fn][i] = o
							s.changed = true
						}
					}
				}
			case ssa.CallInstruction:
				s.propagateCall(in)
			}
		}
	}
}

func (s *sharing) propagateCall(in ssa.CallInstruction) {
	c := in.Common()
	v, _ := in.(ssa.Value)
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		if (bi.Name() == "append" || bi.Name() == "Add" || bi.Name() == "Slice" ||
			bi.Name() == "SliceData") && v != nil {
			if o, ok := s.of(c.Args[0]); ok && !clipped(c.Args[0]) {
				s.mark(v, o)
			}
		}
		return
	}
	f := c.StaticCallee()
	if f == nil {
		return
	}
	if s.p.InModule(f) && f.Blocks != nil {
		for i, a := range c.Args {
			if i < len(f.Params) {
				if o, ok := s.of(a); ok {
					s.mark(f.Params[i], o)
				}
			}
		}
		if v != nil && f.Signature.Results().Len() == 1 {
			if o, ok := s.ret[f][0]; ok {
				s.mark(v, o)
			}
		}
		return
	}
	if v == nil {
		return
	}
	name := f.Name()
	if o := f.Origin(); o != nil {
		name = o.Name()
	}
	if f.Blocks == nil && s.p.InModule(f) { // the runtime
		if name == "noescape" {
			if o, ok := s.of(c.Args[0]); ok {
				s.mark(v, o)
			}
		}
		return
	}
	// What is kept in a map or a cell made for sharing is shared.
	if f.Signature.Recv() != nil && len(c.Args) > 0 && syncType(c.Args[0].Type()) {
		switch name {
		case "Load", "LoadOrStore", "LoadAndDelete", "Swap":
			if o, ok := s.of(c.Args[0]); ok {
				if name == "Swap" || name == "LoadAndDelete" {
					return
				}
				if _, had := s.val[v]; !had {
					s.val[v] = o
					s.changed = true
				}
			}
		}
	}
}

// clipped returns true for s[:n:n]: appending to it makes a copy.
func clipped(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	return ok && sl.Max != nil && sl.High != nil && (sl.Max == sl.High || sameConst(sl.Max, sl.High))
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

// locked returns true if a lock is held somewhere in fn or in what calls it.
func (s *sharing) locked(fn *ssa.Function, depth int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil {
					switch f.String() {
					case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Mutex).TryLock":
						return true
					}
				}
			}
		}
	}
	if depth == 0 {
		return false
	}
	if fn.Parent() != nil && s.locked(fn.Parent(), depth-1) {
		return true
	}
	cs := s.callers[fn]
	for _, c := range cs {
		if !s.locked(c.Parent(), depth-1) {
			return false
		}
	}
	return len(cs) > 0
}

func (s *sharing) report(fn *ssa.Function, pos token.Pos, rule string, o origin, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	if o.may {
		s.r.undecided(fmt.Sprintf("%s: %s: %s", s.p.Pos(pos), fn, msg))
		return
	}
	if rule == "write" && s.locked(fn, 3) {
		s.r.undecided(fmt.Sprintf("%s: %s: %s, with a lock", s.p.Pos(pos), fn, msg))
		return
	}
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	s.r.add(rule, s.p.Pos(pos), name, "%s", msg)
}

func (s *sharing) sinks(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				s.nstores++
				if o, ok := s.of(in.Addr); ok {
					s.report(fn, in.Pos(), "write", o,
						"memory of %s is written after initialisation: all decoders share it", o.what)
				}
				if o, ok := s.of(in.Val); ok && foreign(in.Addr) && refers(in.Val.Type()) {
					s.report(fn, in.Pos(), "handout", o,
						"memory of %s is handed out to a destination: all that get it share it", o.what)
				}
			case *ssa.MapUpdate:
				s.nstores++
				if o, ok := s.of(in.Map); ok {
					s.report(fn, in.Pos(), "write", o,
						"the map of %s is written after initialisation: all decoders share it", o.what)
				}
				if o, ok := s.of(in.Value); ok && isEmptyInterface(in.Value.Type()) {
					s.report(fn, in.Pos(), "handout", o,
						"memory of %s becomes part of a decoded value: all that get it share it", o.what)
				}
			case *ssa.Return:
				s.nstores++
				for _, v := range in.Results {
					if !isEmptyInterface(v.Type()) {
						continue
					}
					if o, ok := s.of(v); ok {
						s.report(fn, in.Pos(), "handout", o,
							"memory of %s becomes a decoded value: all that get it share it", o.what)
					}
				}
			case ssa.CallInstruction:
				s.nstores++
				s.sinkCall(fn, in)
			}
		}
	}
}

func isEmptyInterface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.Empty()
}

// foreign returns true if addr was made from an unsafe pointer.
func foreign(addr ssa.Value) bool {
	for i := 0; i < 50; i++ {
		switch a := addr.(type) {
		case *ssa.Convert:
			if b, ok := a.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				// Only if it isn't the address of a local variable.
				if c, ok := a.X.(*ssa.Convert); ok {
					if _, ok := c.X.(*ssa.Alloc); ok {
						return false
					}
				}
				return true
			}
			return false
		case *ssa.FieldAddr:
			addr = a.X
		case *ssa.IndexAddr:
			addr = a.X
		case *ssa.ChangeType:
			addr = a.X
		default:
			return false
		}
	}
	return false
}

func (s *sharing) sinkCall(fn *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if o, ok := s.of(c.Args[0]); ok && !clipped(c.Args[0]) {
				// Unless it was cut there's no room in a slice literal.
				if sl, ok := c.Args[0].(*ssa.Slice); !ok || sl.High == nil {
					o.may = true
				}
				s.report(fn, in.Pos(), "write", o,
					"memory of %s is appended to after initialisation: all decoders share it", o.what)
			}
			if len(c.Args) > 1 {
				if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && isEmptyInterface(sl.Elem()) {
					// The elements are in an array of the call.
					if x, ok := c.Args[1].(*ssa.Slice); ok {
						for _, ref := range *x.X.Referrers() {
							if ia, ok := ref.(*ssa.IndexAddr); ok {
								for _, r2 := range *ia.Referrers() {
									if st, ok := r2.(*ssa.Store); ok {
										if o, ok := s.of(st.Val); ok {
											s.report(fn, in.Pos(), "handout", o,
												"memory of %s becomes part of a decoded value: all that get it share it", o.what)
										}
									}
								}
							}
						}
					}
				}
			}
		case "copy", "delete", "clear":
			if o, ok := s.of(c.Args[0]); ok {
				s.report(fn, in.Pos(), "write", o,
					"memory of %s is written by %s after initialisation: all decoders share it", o.what, bi.Name())
			}
		}
		return
	}
	f := c.StaticCallee()
	if f == nil || s.p.InModule(f) && f.Blocks != nil {
		return
	}
	for i, a := range c.Args {
		o, ok := s.of(a)
		if !ok {
			continue
		}
		if _, isIface := a.Type().Underlying().(*types.Interface); isIface {
			continue
		}
		switch s.writesParam(f, i, a.Type()) {
		case 2:
			s.report(fn, in.Pos(), "write", o,
				"%s writes memory of %s after initialisation: all decoders share it", f, o.what)
		case 1:
			s.r.undecided(fmt.Sprintf("%s: %s is given memory of %s", s.p.Pos(in.Pos()), f, o.what))
		}
	}
}

// writesParam returns 2 if fn writes through its parameter i, 1 if it may, and 0
// if it doesn't.
func (s *sharing) writesParam(fn *ssa.Function, i int, t types.Type) int {
	if syncType(t) {
		return 0
	}
	path := load.PkgPath(fn)
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	if fn.Blocks == nil {
		if s.p.InModule(fn) { // the runtime by its name
			switch name {
			case "noescape", "makemap", "newarray", "mallocgc":
				return 0
			case "typedmemmove":
				if i == 1 {
					return 2
				}
				return 0
			case "typedmemclr", "mapassign", "mapassign_faststr", "typedslicecopy":
				if i == 1 {
					return 2
				}
				return 0
			}
			return 1
		}
		switch path {
		case "sync/atomic", "sync", "errors", "fmt", "reflect", "strings", "unsafe":
			if path == "strings" && fn.Signature.Recv() != nil && strings.Contains(t.String(), "Builder") {
				return mutator(name)
			}
			return 0
		}
		if fn.Signature.Recv() != nil && i == 0 {
			return mutator(name)
		}
		if i == 0 && (strings.HasPrefix(name, "Append") || strings.HasPrefix(name, "Encode") ||
			strings.HasPrefix(name, "Put") || strings.HasPrefix(name, "Sort") ||
			name == "Strings" || name == "Ints" || name == "Slice" || name == "Reverse" || name == "Delete") {
			if _, ok := t.Underlying().(*types.Slice); ok || strings.HasPrefix(name, "Append") {
				return 2
			}
		}
		return 0
	}
	k := writeKey{fn, i}
	if w, ok := s.writes[k]; ok {
		return w
	}
	s.writes[k] = 0
	if i >= len(fn.Params) {
		return 1
	}
	// Everything derived from the parameter.
	set := map[ssa.Value]bool{fn.Params[i]: true}
	w := 0
	for again := true; again; {
		again = false
		add := func(v ssa.Value, from ssa.Value) {
			if set[from] && !set[v] && refers(v.Type()) {
				set[v] = true
				again = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					add(in, in.X)
				case *ssa.IndexAddr:
					add(in, in.X)
				case *ssa.Slice:
					add(in, in.X)
				case *ssa.ChangeType:
					add(in, in.X)
				case *ssa.Convert:
					add(in, in.X)
				case *ssa.UnOp:
					if in.Op == token.MUL {
						add(in, in.X)
					}
				case *ssa.Phi:
					for _, e := range in.Edges {
						add(in, e)
					}
				case *ssa.Store:
					if set[in.Addr] {
						w = 2
					}
				case *ssa.MapUpdate:
					if set[in.Map] {
						w = 2
					}
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if len(c.Args) > 0 && set[c.Args[0]] {
							switch bi.Name() {
							case "append", "copy", "clear", "delete":
								w = 2
							}
						}
						continue
					}
					f := c.StaticCallee()
					if f == nil {
						continue
					}
					for j, a := range c.Args {
						if set[a] {
							if x := s.writesParam(f, j, a.Type()); x > w {
								w = x
							}
						}
					}
				}
			}
		}
	}
	s.writes[k] = w
	return w
}

// mutator judges a method outside of the module by its name.
func mutator(name string) int {
	for _, p := range []string{"Write", "Reset", "Grow", "Truncate", "Set", "Add", "Delete", "Push", "Pop", "Read", "Next", "Insert", "Remove"} {
		if strings.HasPrefix(name, p) {
			return 2
		}
	}
	return 1
}
