// Package decode decides properties of the decoder's main loop: the transition
// it makes for every kind of token and every kind of destination.
package decode

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"jscheck/flow"
	"jscheck/load"
)

// Model is what's known about one instance of the decoder.
type Model struct {
	P      *load.Program
	E      *flow.Eng
	Bytes  bool // the input is a byte slice
	Name   string
	Decode *ssa.Function

	Dec, Frame, Tok, Rec *types.Struct
	DecT, FrameT, TokT   types.Type
	FS, TS               int64
	kinds                map[string]int64 // token types
	Kinds                map[int64]string
	types                map[string]int64 // expected types
	Types                map[int64]string
	funcs                map[int64]flow.Fn // parser functions by their offset in the decoder
	numberT              types.Type

	// The state at the head of the main loop.
	head           *flow.State
	headAt         *Head
	S              flow.Val // input
	T, D, Opt      *flow.Term
	Tokens         flow.Sl
	TI, SI         flow.Lin
	Frames         flow.Lin
	tiSym, siSym   *flow.Term
	Cells          map[*flow.Term]string
	errIdx, errVal flow.Lin // cells of the results

	Prologue    []*flow.Outcome // paths that don't reach the tokenizer
	Arrival     int             // which of the paths that reach the tokenizer is analysed
	Arrivals    int             // the number of them
	atTokenizer *flow.Outcome   // where the tokenizer is called
	headIn      *flow.Outcome   // where the main loop is entered
	callback    flow.Fn
	after       func(s *flow.State, args []flow.Val, res types.Type) flow.Val
	contract    map[*ssa.Function]string
	anyFns      map[*ssa.Function]bool
	nonNil      map[*ssa.Global]bool
	results     map[*flow.Term]types.Type // of pure functions
	undecided   []string
	loads       map[*flow.Term]bool
	freshN      int
	curK, curE  string
	bounds      *Bounds
	ends        *Ends
}

// Problem is panicked with if the source doesn't have the expected parts.
type Problem struct{ Msg string }

func bail(format string, args ...any) { panic(Problem{fmt.Sprintf(format, args...)}) }

// Off is the offset of a field.
func (m *Model) Off(st *types.Struct, name string) int64 {
	var fs []*types.Var
	idx := -1
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i))
		if st.Field(i).Name() == name {
			idx = i
		}
	}
	if idx < 0 {
		bail("field %s not found", name)
	}
	return m.E.Sizes.Offsetsof(fs)[idx]
}

func fieldType(st *types.Struct, name string) types.Type {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	bail("field %s not found", name)
	return nil
}

func fieldAt(m *Model, st *types.Struct, off int64) string {
	var fs []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i))
	}
	offs := m.E.Sizes.Offsetsof(fs)
	for i, f := range fs {
		sz := m.E.Sizes.Sizeof(f.Type())
		if offs[i] <= off && off < offs[i]+sz {
			if offs[i] == off {
				return f.Name()
			}
			return fmt.Sprintf("%s+%d", f.Name(), off-offs[i])
		}
	}
	return fmt.Sprint(off)
}

// New resolves the instance of the decoder for byte slices or strings.
func New(p *load.Program, bytes bool) *Model {
	m := &Model{P: p, Bytes: bytes, Name: "string"}
	if bytes {
		m.Name = "[]byte"
	}
	for _, fn := range p.Instances(p.ModPath, "Decode") {
		if load.IsGeneric(fn) || len(fn.TypeArgs()) == 0 {
			continue
		}
		_, isSl := fn.TypeArgs()[0].Underlying().(*types.Slice)
		if isSl == bytes && fn.Signature.Recv() != nil {
			m.Decode = fn
		}
	}
	if m.Decode == nil {
		bail("the method Decode isn't found")
	}
	m.E = &flow.Eng{Sizes: p.Sizes, PosOf: func(q token.Pos) string { return p.Pos(q) }, MaxSteps: 4_000_000}
	m.resolve()
	m.hooks()
	return m
}

func (m *Model) resolve() {
	recv := m.Decode.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	m.DecT = recv
	m.Dec = recv.Underlying().(*types.Struct)
	sl := fieldType(m.Dec, "stackExp").Underlying().(*types.Slice)
	m.FrameT = sl.Elem()
	m.Frame = sl.Elem().Underlying().(*types.Struct)
	m.FS = m.E.Sizes.Sizeof(m.FrameT)
	m.Rec = fieldType(m.Frame, "RecursionStack").Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	m.kinds, m.Kinds = map[string]int64{}, map[int64]string{}
	m.types, m.Types = map[string]int64{}, map[int64]string{}
	consts := func(pk *types.Package, prefix string, tname string, a map[string]int64, b map[int64]string) {
		for _, n := range pk.Scope().Names() {
			c, ok := pk.Scope().Lookup(n).(*types.Const)
			if !ok || !strings.HasPrefix(n, prefix) {
				continue
			}
			nt, ok := c.Type().(*types.Named)
			if !ok || nt.Obj().Name() != tname {
				continue
			}
			v, _ := constant.Int64Val(c.Val())
			s := strings.TrimPrefix(n, prefix)
			a[s], b[v] = v, s
		}
	}
	consts(m.P.Root.Pkg, "ExpectType", "ExpectType", m.types, m.Types)
	for _, imp := range m.P.Root.Pkg.Imports() {
		if strings.HasSuffix(imp.Path(), "jscan/v2") {
			consts(imp, "TokenType", "TokenType", m.kinds, m.Kinds)
		}
	}
	for _, k := range []string{"Object", "ObjectEnd", "Array", "ArrayEnd", "Null", "False", "True", "String", "Key", "Integer", "Number"} {
		if _, ok := m.kinds[k]; !ok {
			bail("token type %s isn't found", k)
		}
	}
	if len(m.types) < 20 {
		bail("the expected types aren't found")
	}
	m.numberT = m.P.Root.Pkg.Scope().Lookup("Number").Type()
	m.contract = map[*ssa.Function]string{}
	m.results = map[*flow.Term]types.Type{}
	m.resolveParsers()
}

// resolveParsers finds the functions assigned to fields of the decoder.
func (m *Model) resolveParsers() {
	m.funcs = map[int64]flow.Fn{}
	ms := m.method("init")
	if ms == nil {
		return
	}
	e := &flow.Eng{Sizes: m.P.Sizes, PosOf: m.E.PosOf, MaxSteps: 100000, Inline: func(*ssa.Function) bool { return true }}
	d := e.Sym("d", types.NewPointer(m.DecT))
	d.NonZero = true
	st := e.Start(ms, []flow.Val{flow.A(d)})
	outs := e.Explore(st)
	for _, o := range outs {
		if o.Kind != flow.OReturn {
			continue
		}
		for _, en := range flow.Entries(o.S.Log, nil) {
			if en.Kind != flow.EStore {
				continue
			}
			if f, ok := en.Val.(flow.Fn); ok && len(en.Addr.T) == 1 && en.Addr.T[0].A == d {
				m.funcs[en.Addr.C] = f
			}
		}
	}
}

// method returns the instance of a method of the decoder.
func (m *Model) method(name string) *ssa.Function {
	ms := m.P.Prog.MethodSets.MethodSet(types.NewPointer(m.DecT))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (m *Model) SortedTypes() []string {
	var out []string
	for n := range m.types {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return m.types[out[i]] < m.types[out[j]] })
	return out
}

// --- addresses ---

// frameAddr is the address of a field of a frame.
func (m *Model) frameAddr(i flow.Lin, field string) flow.Lin {
	return m.Frames.Add(i, m.FS).AddC(m.Off(m.Frame, field))
}

func (m *Model) tokAddr(i flow.Lin, field string) flow.Lin {
	return m.Tokens.Ptr.Add(i, m.TS).AddC(m.Off(m.Tok, field))
}

// fr is the value a field of a frame has in state s.
func (m *Model) fr(s *flow.State, i flow.Lin, field string) flow.Val {
	return m.E.Load(s, m.frameAddr(i, field), fieldType(m.Frame, field))
}

// tok is the value of a field of a token.
func (m *Model) tok(s *flow.State, i flow.Lin, field string) flow.Lin {
	return m.E.Load(s, m.tokAddr(i, field), fieldType(m.Tok, field)).(flow.Lin)
}

// nameLoad makes reports readable.
func (m *Model) nameLoad(addr flow.Lin, t types.Type) string {
	try := func(base flow.Lin, size int64, st *types.Struct, name string) string {
		if len(base.T) != 1 || addr.Coef(base.T[0].A) != 1 {
			return ""
		}
		rest := addr.Add(base, -1)
		idx := flow.Lin{}
		for _, x := range rest.T {
			if x.K%size != 0 {
				return ""
			}
			idx.T = append(idx.T, flow.LT{A: x.A, K: x.K / size})
		}
		off := ((rest.C % size) + size) % size
		idx.C = (rest.C - off) / size
		return fmt.Sprintf("%s[%s].%s", name, flow.Show(idx), fieldAt(m, st, off))
	}
	if m.Tok != nil {
		if s := try(m.Tokens.Ptr, m.TS, m.Tok, "tokens"); s != "" {
			return s
		}
	}
	if s := try(m.Frames, m.FS, m.Frame, "frames"); s != "" {
		return s
	}
	return ""
}
