package decode

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"jscheck/flow"
)

// Finding is a transition that isn't the specified one.
type Finding struct {
	Cat       string // what is wrong
	K, E      string // kind of token and destination
	Pos, Fn   string
	Msg       string
	Undecided bool
	Also      string // what else is wrong
}

func (f Finding) String() string {
	u := ""
	if f.Undecided {
		u = "undecided: "
	}
	return fmt.Sprintf("%s%s/%s at %s: [%s] %s", u, f.K, f.E, f.Pos, f.Cat, f.Msg)
}

// Rep collects what was decided.
type Rep struct {
	Findings    []Finding
	Obligations map[string]int // by category
	Outcomes    int
	Splits      int
	Pairs       int
}

type rng struct {
	base flow.Lin
	size int64
}

type frameExp struct {
	frame flow.Lin
	field string
	val   flow.Val
	cat   string
}

// V validates an outcome of a step against the specification: the specification
// is run on the facts of the outcome's path.
type V struct {
	m         *Model
	k, e      string
	opaque    string // memory with unknown text the last value compared depends on
	o         *flow.Outcome
	s         *flow.State // final state
	s0        *flow.State // initial state
	start     *flow.State // initial state of the outcome
	at        *flow.State // state after the last matched event
	ents      []*flow.Entry
	used      map[*flow.Entry]bool
	compares  map[*flow.Entry]bool // loops that only compare names
	toks      map[*flow.Term]bool  // of tokens the path depends on
	tokHist   int
	rep       *Rep
	allow     []rng
	frames    []frameExp
	failed    bool
	wants     bool
	unknown   string
	area      string
	terms     map[string][]*flow.Term
	claimed   []*flow.Entry // loops an iteration of is validated
	fieldLoop *flow.Entry   // points the fields to their struct
	also      string        // what the findings are about
}

// Check validates all outcomes for a kind of token and destination.
func (m *Model) Check(k, e string, rep *Rep) {
	rep.Pairs++
	var outs []*flow.Outcome
	if m.infeasiblePair(k, e) {
		outs = m.Step(k, e)
	} else {
		m.watch(m.head, rep, func() { outs = m.Step(k, e) })
	}
	for _, o := range outs {
		rep.Outcomes++
		m.checkOutcome(k, e, o, m.head, rep, (*V).run)
	}
}

func (m *Model) checkOutcome(k, e string, o *flow.Outcome, start *flow.State, rep *Rep, run func(*V)) {
	if rep.Obligations == nil {
		rep.Obligations = map[string]int{}
	}
	work := []*flow.Facts{o.S.F.Clone()}
	for n := 0; len(work) > 0; n++ {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if n > 3000 || flow.TimedOut() {
			rep.Findings = append(rep.Findings, Finding{Cat: "budget", K: k, E: e, Pos: o.Pos, Fn: o.Fn, Msg: "too many cases", Undecided: true})
			return
		}
		v := &V{m: m, k: k, e: e, o: o, start: start, rep: &Rep{Obligations: map[string]int{}}}
		v.s = o.S.WithFacts(f)
		v.s0 = start.WithFacts(f)
		v.at = v.s0
		v.ents = flow.Entries(o.S.Log, start.Log)
		v.used = map[*flow.Entry]bool{}
		v.compares = map[*flow.Entry]bool{}
		need, stopped := flow.Try(func() { run(v) })
		if need != nil {
			rep.Splits++
			a, b := f.Clone(), f
			okA, okB := a.Assume(*need), b.Assume(need.Negate())
			if okA && a.Decide(*need) == 0 || okB && b.Decide(*need) == 0 {
				rep.Findings = append(rep.Findings, Finding{Cat: "split", K: k, E: e, Pos: o.Pos, Fn: o.Fn, Msg: "can't assume " + flow.Show(*need), Undecided: true})
				return
			}
			if okA {
				work = append(work, a)
			}
			if okB {
				work = append(work, b)
			}
			continue
		}
		if strings.HasPrefix(stopped, "infeasible") {
			continue
		}
		if stopped != "" && !strings.HasPrefix(stopped, "done") {
			v.unsure("spec", "%s", stopped)
		}
		rep.Findings = append(rep.Findings, v.rep.Findings...)
		for c, n := range v.rep.Obligations {
			rep.Obligations[c] += n
		}
	}
}

func infeasible() { flow.Stop("infeasible", "") }

func (v *V) done() { flow.Stop("done", "") }

func (v *V) fail(cat, format string, args ...any) {
	und := false
	msg := fmt.Sprintf(format, args...)
	if u := v.unknownCond(); u != "" {
		und = true
		msg += " (depends on " + u + ")"
	} else if v.opaque != "" {
		und = true
		msg += " (what's in " + v.opaque + " isn't known)"
	}
	if d := os.Getenv("JSDUMP"); d != "" && strings.Contains(msg, d) && !und {
		fmt.Println("==", msg)
		for _, h := range v.s.F.Hist {
			fmt.Println("   ", flow.Show(h))
		}
	}
	if v.opaque == "" || !und {
		v.failed = true
	}
	v.rep.Findings = append(v.rep.Findings, Finding{Cat: cat, K: v.k, E: v.e, Pos: v.o.Pos, Fn: v.o.Fn, Msg: msg, Undecided: und, Also: v.also})
}

func (v *V) unsure(cat, format string, args ...any) {
	v.failed = true
	v.rep.Findings = append(v.rep.Findings, Finding{Cat: cat, K: v.k, E: v.e, Pos: v.o.Pos, Fn: v.o.Fn, Msg: fmt.Sprintf(format, args...), Undecided: true, Also: v.also})
}

func (v *V) ok(cat string) { v.rep.Obligations[cat]++ }

// must records an obligation that's decided by r: 1 holds, -1 or 0 doesn't.
func (v *V) must(cat string, r int, format string, args ...any) bool {
	v.ok(cat)
	if r == 1 {
		return true
	}
	v.fail(cat, format, args...)
	return false
}

var knownApps = map[string]bool{
	"ReadNumber": true, "strconv.ParseFloat": true, "strconv.ParseInt": true, "strconv.ParseUint": true, "unescape": true, "eqstr": true, "IndexByte": true,
	"EqualFold": true, "inRecursion": true, "copy": true, "any value": true, "any error": true, "decodeAny": true,
	"newarray": true, "mallocgc": true, "makemap": true, "mapassign": true, "mapassign_faststr": true, "makeslice": true,
	"reflect.Value.IsNil": true, "reflect.Value.Elem": true, "reflect.Value.Interface": true, "reflect.NewAt": true,
	"reflect.New": true, "reflect.Value.UnsafePointer": true, "mul": true, "isnil": true, "empty": true, "==": true,
	"compiled": true, "reflect.PointerTo": true, "reflect.StructTag.Get": true, "strings.Split": true, "dataword": true,
	"recursions": true, "recursion depth": true, "maplen": true,
	// These change the text they are given.
	"strings.TrimSpace": true, "strings.ToLower": true, "strings.ToUpper": true,
	"bytes.TrimSpace": true, "bytes.ToLower": true, "bytes.ToUpper": true,
}

func knownApp(n string) bool {
	return knownApps[n] || strings.HasPrefix(n, "atoi.") || strings.HasPrefix(n, "jscan.atoi.") ||
		strings.HasPrefix(n, "invoke.") || strings.HasPrefix(n, "is ") || strings.HasPrefix(n, "as ") || strings.HasPrefix(n, "conv ")
}

// unknownCond returns a term the path depends on that the specification doesn't
// know about.
func (v *V) unknownCond() string {
	if v.unknown == "" {
		v.unknown = "-"
		claimed := map[*flow.Term]bool{}
		claim := func(en *flow.Entry) {
			if en.Kind == flow.ELoop {
				for _, c := range en.Loop.Comps {
					// What a search goes through the fields for isn't known.
					if c.Sym != nil && (c.Kind != flow.Gen || !v.compares[en]) {
						claimed[c.Sym] = true
					}
				}
				claimed[en.Loop.N] = true
			}
		}
		for en := range v.used {
			claim(en)
		}
		for _, en := range v.claimed {
			claim(en)
		}
		for _, en := range v.unusedLoops() {
			if v.endLoop(en) {
				claim(en)
			}
		}
		for _, h := range v.o.S.F.Hist[len(v.start.F.Hist):] {
			flow.Visit(h, func(t *flow.Term) {
				switch t.Op {
				case "app":
					if t.Name == "mapget" && !mapOfProgram(t) {
						return // it may be there or not
					}
					if !knownApp(t.Name) {
						v.unknown = t.Name
					}
					for _, a := range t.Args {
						if u := v.m.opaque(a); u != "" && !strings.Contains(u, "@") {
							v.unknown = u
						}
					}
				case "load":
					// What's computed is known, what's looked up isn't.
					if b := flow.Base(t.Addr); b != nil && b.Op == "glob" {
						if _, ok := t.Typ.Underlying().(*types.Basic); ok {
							v.unknown = b.Name
						}
					}
				case "sym":
					if strings.Contains(t.Name, "@") && !claimed[t] {
						v.unknown = t.Name
					}
				}
			})
		}
	}
	if v.unknown == "-" {
		return ""
	}
	return v.unknown
}

// mapOfProgram tells whether a value is looked up in a map of the program.
func mapOfProgram(t *flow.Term) bool {
	l, ok := t.Args[0].(flow.Lin)
	if !ok {
		return true
	}
	b := flow.Base(l)
	for b != nil && b.Op == "load" {
		b = flow.Base(b.Addr)
	}
	return b == nil || b.Op == "glob"
}

// --- conditions ---

func (v *V) req(c flow.Cond) bool { return v.s.Require(c) }

func (v *V) decide(c flow.Cond) int { return v.s.F.Decide(c) }

func eq(a, b flow.Lin) flow.Cond { return flow.Cond{Op: flow.EQ, L: a.Add(b, -1)} }
func ge(a, b flow.Lin) flow.Cond { return flow.Cond{Op: flow.GE, L: a.Add(b, -1)} }

// static fields of frames don't change.
func (v *V) f(i flow.Lin, field string) flow.Lin { return v.m.fr(v.s0, i, field).(flow.Lin) }

func (v *V) typeIs(i flow.Lin, names ...string) bool {
	for _, n := range names {
		c, ok := v.m.types[n]
		if !ok {
			continue
		}
		if v.req(flow.Cond{Op: flow.EQ, L: v.f(i, "Type").AddC(-c)}) {
			return true
		}
	}
	return false
}

func (v *V) typeMaybe(i flow.Lin, n string) int {
	c, ok := v.m.types[n]
	if !ok {
		return -1
	}
	return v.decide(flow.Cond{Op: flow.EQ, L: v.f(i, "Type").AddC(-c)})
}

// tok is a field of a token. The term the path already depends on is preferred,
// its index may be written differently.
func (v *V) tok(i flow.Lin, field string) flow.Lin {
	l := v.m.tok(v.s0, i, field)
	if len(l.T) != 1 || l.C != 0 || l.T[0].K != 1 || l.T[0].A.Op != "load" {
		return l
	}
	t := l.T[0].A
	h := v.s0.F.Hist
	if v.toks == nil || v.tokHist != len(h) {
		v.toks, v.tokHist = map[*flow.Term]bool{}, len(h)
		base := v.m.Tokens.Ptr.T[0].A
		for _, c := range h {
			flow.Visit(c, func(u *flow.Term) {
				if u.Op == "load" && u.Addr.Coef(base) == 1 {
					v.toks[u] = true
				}
			})
		}
	}
	if v.toks[t] {
		return l
	}
	var best *flow.Term
	for u := range v.toks {
		if u.Ver == t.Ver && types.Identical(u.Typ, t.Typ) && (best == nil || u.ID < best.ID) {
			if d := v.s0.F.Norm(u.Addr.Add(t.Addr, -1)); d.IsC() && d.C == 0 {
				best = u
			}
		}
	}
	if best != nil {
		return flow.A(best)
	}
	return l
}

func (v *V) kindIs(i flow.Lin, names ...string) bool {
	for _, n := range names {
		if v.req(flow.Cond{Op: flow.EQ, L: v.tok(i, "Type").AddC(-v.m.kinds[n])}) {
			return true
		}
	}
	return false
}

func (v *V) same(a, b flow.Val) int {
	r := v.m.E.Same(v.s.F, a, b)
	v.opaque = ""
	if r != 1 {
		v.opaque = v.m.opaque(a)
	}
	return r
}

// opaque tells whether a value depends on text that's put together in memory of the
// program, and the name of that memory if so.
func (m *Model) opaque(x flow.Val) string {
	r := ""
	text := func(x flow.Val) {
		switch x.(type) {
		case flow.Str, flow.Sl:
		default:
			return
		}
		b := flow.Base(m.E.ToStr(x).Ptr)
		switch {
		case b == nil:
		case b.Op == "alloc", b.Op == "app" && (b.Name == "makeslice" || b.Name == "append" || strings.HasPrefix(b.Name, "strings.Builder.") || strings.HasPrefix(b.Name, "bytes.Buffer.")),
			b.Op == "sym" && strings.Contains(b.Name, "@"):
			r = b.Name
		case b.Op == "proj":
			for _, a := range b.Args {
				if t, ok := a.(*flow.Term); ok && (strings.HasPrefix(t.Name, "strings.Builder.") || strings.HasPrefix(t.Name, "bytes.Buffer.")) {
					r = t.Name
				}
			}
		}
	}
	var val func(x flow.Val)
	val = func(x flow.Val) {
		text(x)
		if i, ok := x.(flow.Iface); ok && i.V != nil {
			val(i.V)
		}
	}
	val(x)
	if x != nil {
		flow.Visit(x, func(t *flow.Term) {
			if t.Op == "app" && t.Name != "copy" {
				for _, a := range t.Args {
					val(a)
				}
			}
		})
	}
	return r
}

// byteAt is a byte of the input.
func (v *V) byteAt(i flow.Lin) flow.Lin {
	p := v.m.E.ToStr(v.m.S).Ptr.Add(i, 1)
	return v.m.E.Load(v.s0, p, types.Typ[types.Byte]).(flow.Lin)
}

// raw is the text of a token, q is the number of bytes to strip on either side.
func (v *V) raw(tok flow.Lin, q int64) flow.Str {
	p := v.m.E.ToStr(v.m.S).Ptr
	return flow.Str{Ptr: p.Add(v.tok(tok, "Index"), 1).AddC(q), Len: v.tok(tok, "End").Add(v.tok(tok, "Index"), -1).AddC(-2 * q)}
}

// global is the value of a package-level variable.
func (v *V) global(name string) flow.Val {
	g := v.m.P.Root.Var(name)
	if g == nil {
		bail("the variable %s isn't found", name)
	}
	return v.m.E.Load(v.s0, flow.A(v.m.E.GlobTerm(g)), g.Type().Underlying().(*types.Pointer).Elem())
}

// apps returns the applications of a function on the path to the given arguments,
// or makes one.
func (v *V) apps(name string, res types.Type, args ...flow.Val) flow.Val {
	for _, t := range v.pathTerms(name) {
		if len(t.Args) < len(args) {
			continue
		}
		same := true
		for i, a := range args {
			if v.same(t.Args[i], a) != 1 {
				same = false
			}
		}
		if same {
			if r, ok := v.m.results[t]; ok {
				res = r
			}
			return v.m.E.AppVal(t, res)
		}
	}
	t := v.m.E.App(name, nil, normArgs(v.s, v.m.strArgs(args))...)
	return v.m.E.AppVal(t, res)
}

// pathTerms returns the applications of a function the outcome depends on.
func (v *V) pathTerms(name string) []*flow.Term {
	if v.terms == nil {
		v.terms = map[string][]*flow.Term{}
		seen := map[*flow.Term]bool{}
		add := func(t *flow.Term) {
			if t.Op == "app" && !seen[t] {
				seen[t] = true
				v.terms[t.Name] = append(v.terms[t.Name], t)
			}
		}
		for _, h := range v.o.S.F.Hist[len(v.start.F.Hist):] {
			flow.Visit(h, add)
		}
		for _, en := range v.ents {
			if en.Kind == flow.EStore {
				flow.Visit(en.Val, add)
				flow.Visit(en.Addr, add)
			}
			if en.Kind == flow.EEvent {
				for _, a := range en.Ev.Args {
					flow.Visit(a, add)
				}
				flow.Visit(en.Ev.Res, add)
			}
		}
	}
	return v.terms[name]
}

// --- expectations ---

// p is the address of the destination.
func (v *V) p() flow.Lin { return v.dest(v.m.SI) }

func (v *V) dest(i flow.Lin) flow.Lin {
	return v.m.fr(v.s0, i, "Dest").(flow.Lin).Add(v.m.fr(v.s0, i, "Offset").(flow.Lin), 1)
}

func (v *V) allowed(addr flow.Lin, t types.Type) {
	v.allow = append(v.allow, rng{addr, v.m.E.Sizes.Sizeof(t)})
}

func (v *V) setFrame(i flow.Lin, field string, val flow.Val, cat string) {
	v.frames = append(v.frames, frameExp{i, field, val, cat})
}

// at returns the value a field has since the last matched event.
func (v *V) cur(i flow.Lin, field string) flow.Val { return v.m.fr(v.at, i, field) }

// event returns the next entry of an event with this name.
func (v *V) event(names ...string) *flow.Entry {
	for _, en := range v.ents {
		if en.Kind != flow.EEvent || v.used[en] {
			continue
		}
		for _, n := range names {
			if en.Ev.Name == n {
				return en
			}
		}
	}
	return nil
}

func (v *V) use(en *flow.Entry) {
	v.used[en] = true
	v.unknown = ""
}

// recurse expects that the recursion is entered or left at a frame.
func (v *V) recurse(name string, frame flow.Lin) flow.Lin {
	en := v.event("enter", "leave")
	if en == nil {
		v.fail("recursion", "the recursion isn't %s", map[string]string{"enter": "entered", "leave": "left"}[name])
		v.done()
	}
	if en.Ev.Name != name {
		v.fail("recursion", "%s of the recursion instead of %s", en.Ev.Name, name)
		v.done()
	}
	v.must("recursion", v.same(en.Ev.Args[0], frame), "%s of the recursion at frame %s instead of %s", name, flow.Show(en.Ev.Args[0]), flow.Show(frame))
	v.use(en)
	// The effects of the event follow.
	last, on := en, false
	for _, x := range v.ents {
		if x == en {
			on = true
		} else if on {
			if x.Kind != flow.EHavoc && (x.Kind != flow.EStore || x.Pos.IsValid()) {
				break
			}
			last = x
		}
	}
	v.at = v.s.At(last)
	return en.Ev.Res.(flow.Lin)
}

// wantErr expects that decoding ends with an error.
func (v *V) wantErr(tok flow.Lin, why string, errs ...flow.Val) {
	v.wants = true
	o := v.o
	if o.Kind != flow.OReturn || len(o.Ret) != 1 || v.same(o.Ret[0], flow.Cond{Op: flow.True}) != 1 {
		v.ok("accept")
		v.claimEnds()
		v.fail("accept", "accepted although %s", why)
		return
	}
	v.ok("accept")
	idx := v.m.E.Load(v.s, v.m.errIdx, types.Typ[types.Int])
	v.must("errindex", v.same(idx, v.tok(tok, "Index")), "the error has index %s instead of %s", flow.Show(idx), flow.Show(v.tok(tok, "Index")))
	er := v.m.E.Load(v.s, v.m.errVal, errorT)
	r := 0
	for _, e := range errs {
		if v.same(er, e) == 1 {
			r = 1
		}
	}
	v.must("errkind", r, "the error is %s instead of %s (%s)", flow.Show(er), flow.Show(errs[0]), why)
}

// wantNext expects that decoding goes on with the given token and frame.
func (v *V) wantNext(ti flow.Lin, si *flow.Lin) {
	v.wants = true
	if v.o.Kind != flow.OCut {
		v.ok("accept")
		er := v.m.E.Load(v.s, v.m.errVal, errorT)
		v.fail("accept", "rejected with %s although it's a valid value", flow.Show(er))
		return
	}
	v.ok("accept")
	t, s := v.nextOf(v.m.TI), v.nextOf(v.m.SI)
	v.must("next", v.same(t, ti), "goes on with token %s instead of %s", flow.Show(t), flow.Show(ti))
	if si != nil {
		v.must("frame", v.same(s, *si), "goes on with frame %s instead of %s", flow.Show(s), flow.Show(*si))
	}
	for _, fe := range v.frames {
		got := v.m.fr(v.s, fe.frame, fe.field)
		if v.fieldLoop != nil && !v.same1(got, fe.val) && !v.setAfter(v.fieldLoop, fe) {
			// The frames of the fields are others.
			got = v.m.fr(v.s.Before(v.fieldLoop), fe.frame, fe.field)
		}
		v.must(fe.cat, v.same(got, fe.val), "%s of frame %s is %s instead of %s", fe.field, flow.Show(fe.frame), flow.Show(got), flow.Show(fe.val))
	}
}

// final is the value in the destination's memory at the end.
func (v *V) final(p flow.Lin, t types.Type) flow.Val {
	size := v.m.E.Sizes.Sizeof(t)
	for _, en := range v.ents {
		if en.Kind != flow.EStore || !en.Pos.IsValid() || v.region(en) != "user" || flow.Base(en.Addr) != flow.Base(p) {
			continue
		}
		d := v.s.F.Norm(en.Addr.Add(p, -1))
		if d.IsC() && d.C < size && d.C+en.Size > 0 && (d.C < 0 || d.C+en.Size > size) && !v.within(en.Addr, en.Size) {
			v.ok("address")
			v.failAt(en, "address", "%d bytes are written to %s, where the destination has %d", en.Size, flow.Show(en.Addr), size)
		}
		if d.IsC() || v.decide(ge(d, flow.C(size))) == 1 || v.decide(ge(flow.C(0), d.AddC(en.Size))) == 1 {
			continue
		}
		v.ok("address")
		v.failAt(en, "address", "%d bytes are written to %s instead of %s", en.Size, flow.Show(en.Addr), flow.Show(p))
		v.done()
	}
	return v.m.E.Load(v.s, p, t)
}

// setAfter returns whether a field of a frame might be set after an entry.
func (v *V) setAfter(after *flow.Entry, fe frameExp) bool {
	seen := false
	for _, en := range v.ents {
		if en == after {
			seen = true
		} else if seen && en.Kind == flow.EStore && v.region(en) == "frames" {
			idx, field, ok := v.m.frameOf(v.s.F, en.Addr)
			if !ok || field == fe.field && v.decide(eq(idx, fe.frame)) != -1 {
				return true
			}
		}
	}
	return false
}

// nextOf is the value of a variable of the loop at its next iteration.
func (v *V) nextOf(l flow.Lin) flow.Val {
	sym := l.T[0].A
	for p, x := range v.m.headAt.Phis {
		if y, ok := x.(flow.Lin); ok && len(y.T) == 1 && y.T[0].A == sym {
			return v.o.Next[p]
		}
	}
	for a := range v.m.Cells {
		el := a.Typ.Underlying().(*types.Pointer).Elem()
		if x, ok := v.m.E.Load(v.s0, flow.A(a), el).(flow.Lin); ok && x.Eq(l) {
			return v.m.E.Load(v.s, flow.A(a), el)
		}
	}
	flow.Stop("undecided", "the next value isn't found")
	return nil
}

// wantAt expects a value in the destination's memory.
func (v *V) wantAt(cat string, addr flow.Lin, t types.Type, want flow.Val) {
	v.allowed(addr, t)
	if v.o.Kind != flow.OCut {
		return
	}
	got := v.final(addr, t)
	v.must(cat, v.same(got, want), "the value is %s instead of %s", flow.Show(got), flow.Show(want))
}

// userStore returns true if an entry writes to memory of the user.
func (v *V) region(en *flow.Entry) string {
	b := flow.Base(en.Addr)
	if b == nil {
		return "unknown"
	}
	switch b.Op {
	case "alloc":
		return "local"
	case "glob":
		return "global"
	}
	switch flow.Region(en.Addr) {
	case flow.Region(v.m.Frames):
		return "frames"
	case flow.Region(v.m.Tokens.Ptr):
		return "tokens"
	case flow.Region(flow.A(v.m.D)):
		return "decoder"
	}
	return "user"
}

// within returns true if an address range is allowed to be written to.
func (v *V) within(addr flow.Lin, n int64) bool {
	for _, r := range v.allow {
		if flow.Base(addr) != flow.Base(r.base) {
			if v.decide(eq(addr, r.base)) == 1 && n <= r.size {
				return true
			}
			continue
		}
		d := addr.Add(r.base, -1)
		if v.decide(ge(d, flow.C(0))) == 1 && v.decide(ge(flow.C(r.size-n), d)) == 1 {
			return true
		}
	}
	return false
}

// finish checks that there are no other effects.
func (v *V) finish() {
	last := -1 // of the last event that resets frames
	for i, en := range v.ents {
		if isRecursion(en) {
			last = i
		}
	}
	for i, en := range v.ents {
		v.entry(en, i > last)
	}
}

func (v *V) entry(en *flow.Entry, final bool) {
	v.opaque = ""
	switch en.Kind {
	case flow.EStore:
		if !en.Pos.IsValid() {
			return
		}
		switch v.region(en) {
		case "local":
		case "global":
			v.ok("shared")
			v.failAt(en, "shared", "the package-level variable %s is written to", flow.Show(en.Addr))
		case "tokens":
			v.ok("address")
			v.failAt(en, "address", "a token is written to")
		case "decoder":
			v.ok("state")
			v.failAt(en, "state", "a field of the decoder is written to")
		case "frames":
			v.frameStore(en, final)
		case "user":
			v.ok("address")
			if !v.within(en.Addr, en.Size) {
				v.failAt(en, "address", "%d bytes are written to %s, which isn't part of the destination", en.Size, flow.Show(en.Addr))
			}
			v.aliasCheck(en)
		default:
			v.unsure("address", "a write to an unknown address")
		}
	case flow.EEvent:
		if v.used[en] {
			return
		}
		switch en.Ev.Name {
		case "newarray", "mallocgc", "makemap", "reflect.New", "append":
			return // without a use
		case "enter", "leave":
			v.ok("recursion")
			v.failAt(en, "recursion", "unexpected %s of the recursion", en.Ev.Name)
		case "typedmemclr":
			v.ok("address")
			v.failAt(en, "address", "memory is cleared that isn't expected to be")
		case "typedslicecopy":
			v.ok("address")
			v.failAt(en, "address", "memory is copied that isn't expected to be")
		default:
			v.ok("effects")
			v.failAt(en, "effects", "unexpected call of %s", en.Ev.Name)
		}
	case flow.ELoop:
		if v.used[en] {
			return
		}
		v.ok("loops")
		if loopHas(en.Loop, func(x *flow.Entry) bool {
			switch x.Kind {
			case flow.EStore:
				r := v.region(x)
				return x.Pos.IsValid() && r != "local"
			case flow.EEvent:
				return true
			}
			return false
		}) {
			v.unsure("loops", "a loop with effects isn't known at %s", en.Loop.Pos)
		}
	}
}

func (v *V) failAt(en *flow.Entry, cat, format string, args ...any) {
	n := len(v.rep.Findings)
	v.fail(cat, format, args...)
	for i := n; i < len(v.rep.Findings); i++ {
		v.rep.Findings[i].Pos = v.m.P.Pos(en.Pos)
	}
}

// aliasCheck checks that memory of the user doesn't refer to a []byte input.
func (v *V) aliasCheck(en *flow.Entry) {
	if !v.m.Bytes {
		v.copyCheck(en, "the value", en.Val)
		return
	}
	v.ok("alias")
	sp := v.m.E.ToStr(v.m.S).Ptr.T[0].A
	bad := false
	var val func(x flow.Val)
	val = func(x flow.Val) {
		switch x := x.(type) {
		case flow.Lin:
			if x.Coef(sp) != 0 {
				bad = true
			}
		case flow.Str:
			val(x.Ptr)
		case flow.Sl:
			val(x.Ptr)
		case flow.Iface:
			if x.V != nil {
				val(x.V)
			}
		case flow.Agg:
			for _, f := range x.F {
				val(f)
			}
		}
	}
	val(en.Val)
	if bad {
		v.failAt(en, "alias", "the destination refers to the memory of the input: %s", flow.Show(en.Val))
	}
}

// frameOf resolves an address within the frames.
func (m *Model) frameOf(f *flow.Facts, a flow.Lin) (idx flow.Lin, field string, ok bool) {
	d := f.Norm(a.Add(m.Frames, -1))
	off := ((d.C % m.FS) + m.FS) % m.FS
	idx, ok = divLin(d.AddC(-off), m.FS)
	return idx, fieldAt(m, m.Frame, off), ok
}

func (v *V) frameStore(en *flow.Entry, final bool) {
	idx, field, ok := v.m.frameOf(v.s.F, en.Addr)
	if !ok {
		v.unsure("state", "a write to an unknown field of a frame")
		return
	}
	switch field {
	case "Dest", "Offset", "Len":
	case "RecursionStack", "RecursionStack+4", "RecursionStack+8", "RecursionStack+16":
		v.failAt(en, "recursion", "the recursion stack is written to")
		return
	default:
		isKnown := false
		for i := 0; i < v.m.Frame.NumFields(); i++ {
			n := v.m.Frame.Field(i).Name()
			if strings.HasPrefix(field, n) {
				isKnown = staticFields[n]
			}
		}
		v.ok("state")
		if isKnown {
			v.failAt(en, "state", "the field %s of a frame is written to", field)
		}
		return
	}
	if !final {
		return // replaced by a recursion's end or begin
	}
	v.ok("state")
	for _, fe := range v.frames {
		if fe.field == field && v.same(fe.frame, idx) == 1 {
			return
		}
	}
	if v.o.Kind != flow.OCut {
		return // everything's reset
	}
	// Without effect?
	before := v.s.Before(en)
	if v.m.E.Same(v.s.F, v.m.fr(before, idx, field), en.Val) == 1 {
		return
	}
	if field == "Len" {
		par := v.f(idx, "ParentFrameIndex")
		if v.decide(eq(par, flow.C(noParent))) == 1 || v.typeMaybe(par, "Array") == -1 {
			return // not an element of an array
		}
	}
	v.failAt(en, "state", "%s of frame %s is set to %s", field, flow.Show(idx), flow.Show(en.Val))
}

const noParent = int64(0xFFFFFFFF)

var staticFields = map[string]bool{
	"Fields": true, "RType": true, "Typ": true, "MapValueType": true, "Size": true, "Cap": true,
	"RecurFrame": true, "ParentFrameIndex": true, "Type": true, "MapCanUseAssignFaststr": true,
}
