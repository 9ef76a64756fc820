package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"jscheck/decode"
	"jscheck/load"
)

// instance is what was decided about an instance of the decoder.
type instance struct {
	name    string
	rep     *decode.Rep
	stat    map[string]int
	failure string
	ends    []string // loops that end
	endless []string // loops for which that isn't known
	unknown []string // index expressions that aren't decided on all paths
}

// arrivals bounds the number of ways to the tokenizer that are analysed.
const arrivals = 3

func (c *Ctx) decoder() []*instance {
	if c.inst != nil { // computed once
		return c.inst
	}
	names := []string{"[]byte", "string"}
	for _, n := range names {
		c.inst = append(c.inst, &instance{name: n})
		c.comp = append(c.comp, &instance{name: n})
	}
	progs := []*load.Program{c.P}
	var wg sync.WaitGroup
	start := func(at int) {
		p := progs[at]
		for i := range names {
			wg.Add(2)
			go c.inst[2*at+i].decode(&wg, p, i == 0)
			go c.comp[2*at+i].compile(&wg, p, i == 0)
		}
	}
	start(0)
	// On a 32-bit architecture.
	if p, err := load.LoadFor(c.P.Dir, "386"); err == nil {
		progs = append(progs, p)
		for _, n := range names {
			c.inst = append(c.inst, &instance{name: n + ", 32-bit"})
			c.comp = append(c.comp, &instance{name: n + ", 32-bit"})
		}
		start(1)
	} else {
		defer func() {
			c.inst = append(c.inst, &instance{name: "32-bit", rep: &decode.Rep{}, failure: err.Error()})
		}()
	}
	wg.Wait()
	return c.inst
}

// decode analyses what the decoder does.
func (in *instance) decode(wg *sync.WaitGroup, p *load.Program, bytes bool) {
	defer wg.Done()
	in.rep = &decode.Rep{}
	in.stat = map[string]int{}
	defer in.guard()
	n := 1
	for a := 0; a < n; a++ {
		m := decode.New(p, bytes)
		m.Arrival = a
		m.Prepare()
		n = min(m.Arrivals, arrivals)
		m.WatchLoops(in.rep)
		m.WatchAllocs(in.rep)
		for _, k := range m.KindList() {
			for _, t := range m.SortedTypes() {
				m.Check(k, t, in.rep)
			}
		}
		m.E.OnAlloc = nil
		m.CheckLife(in.rep)
		if a == 0 {
			m.CheckRecursion(in.rep)
			m.WatchAllocs(in.rep)
			m.CheckAny(in.rep)
		}
		in.loops(m)
		in.stat["paths"] += m.E.Paths
		ok, unknown := m.Indexes()
		in.stat["index expressions always in bounds"] += ok
		in.unknown = append(in.unknown, unknown...)
		in.stat["instructions"] += m.E.Steps
		in.stat["loops"] += m.E.LoopSums
		in.stat["token kinds"] = len(m.KindList())
		in.stat["destination types"] = len(m.SortedTypes())
	}
}

// compile analyses how types are compiled.
func (in *instance) compile(wg *sync.WaitGroup, p *load.Program, bytes bool) {
	defer wg.Done()
	in.rep = &decode.Rep{}
	in.stat = map[string]int{}
	defer in.guard()
	k := decode.NewCompiler(p, bytes)
	k.WatchLoops(in.rep)
	in.stat["paths"] += k.Check(in.rep)
	k.CheckStale(in.rep)
	t := decode.NewCtor(p, bytes)
	t.Resolve()
	t.WatchLoops(in.rep)
	t.Check(in.rep)
	t.CheckNumber(in.rep)
	in.loops(k.Model)
	in.loops(t.Model)
	if bytes && p.Sizes.Sizeof(types.Typ[types.Int]) == 8 { // They are the same ones for all instances.
		m := decode.New(p, bytes)
		m.WatchLoops(in.rep)
		m.WatchAllocs(in.rep)
		m.CheckEnds(in.rep)
		in.loops(m)
		decode.New(p, false).CheckCopies(in.rep)
	}
}

// loops notes which loops end.
func (in *instance) loops(m *decode.Model) {
	ok, unknown := m.Loops()
	in.ends = append(in.ends, ok...)
	in.endless = append(in.endless, unknown...)
}

// guard notes a failure of the analysis.
func (in *instance) guard() {
	if e := recover(); e != nil {
		in.failure = fmt.Sprint(e)
		if p, ok := e.(decode.Problem); ok {
			in.failure = p.Msg
		} else {
			in.failure += "\n" + string(debug.Stack())
		}
	}
}

// selects tells which findings break a property.
type selects func(f decode.Finding) bool

func in(s string, list string) bool {
	for _, x := range strings.Fields(list) {
		if strings.HasSuffix(x, "*") {
			if strings.HasPrefix(s, x[:len(x)-1]) {
				return true
			}
		} else if s == x {
			return true
		}
	}
	return false
}

// cat selects by what's wrong.
func cat(list string) selects {
	return func(f decode.Finding) bool { return in(f.Cat, list) || f.Also != "" && in(f.Also, list) }
}

// kind selects by the kind of the token.
func kind(list string) selects { return func(f decode.Finding) bool { return in(f.K, list) } }

// dest selects by the type of the destination.
func dest(list string) selects { return func(f decode.Finding) bool { return in(f.E, list) } }

func anyOf(l ...selects) selects {
	return func(f decode.Finding) bool {
		for _, s := range l {
			if s(f) {
				return true
			}
		}
		return false
	}
}

func allOf(l ...selects) selects {
	return func(f decode.Finding) bool {
		for _, s := range l {
			if !s(f) {
				return false
			}
		}
		return true
	}
}

func not(s selects) selects { return func(f decode.Finding) bool { return !s(f) } }

// decodeCheck reports the findings that break a property. What can't be decided
// is reported as such in the evidence: it's no violation.
func decodeCheck(sel selects, cats string, rule string) checkFn {
	return typedCheck(sel, cats, nil, "", rule)
}

// typedCheck also reports the findings about the way types are compiled, those
// with the obligations tcats.
func typedCheck(sel selects, cats string, tsel selects, tcats string, rule string) checkFn {
	return func(c *Ctx, r *Report) {
		var undecided, unanalysed []string
		obl := map[string]int{}
		c.decoder()
		for _, in := range c.comp {
			if tsel == nil {
				break
			}
			if in.failure != "" {
				unanalysed = append(unanalysed, in.name+": types: "+in.failure)
			}
			for _, f := range in.rep.Findings {
				if !tsel(f) || (f.Cat == "copied" || f.Cat == "memory") && !matches(f.Cat, tcats) {
					continue
				}
				if f.Undecided {
					undecided = append(undecided, fmt.Sprintf("%s: %s: type %s [%s] %s", in.name, f.Pos, f.E, f.Cat, f.Msg))
					continue
				}
				r.add(f.Cat, f.Pos, fmt.Sprintf("%s (%s)", f.Fn, in.name), "type %s: %s", f.E, f.Msg)
			}
			for k, n := range in.rep.Obligations {
				if matches(k, tcats) {
					obl["type "+k] += n
				}
			}
			r.count("ways to compile types", in.rep.Outcomes)
		}
		for _, in := range c.inst {
			if sel == nil {
				break
			}
			if in.failure != "" {
				unanalysed = append(unanalysed, in.name+": "+in.failure)
			}
			for _, f := range in.rep.Findings {
				if !sel(f) || (f.Cat == "copied" || f.Cat == "memory") && !matches(f.Cat, cats) {
					continue
				}
				s := fmt.Sprintf("%s of %s [%s] %s", f.K, f.E, f.Cat, f.Msg)
				if f.Undecided {
					undecided = append(undecided, in.name+": "+f.Pos+": "+s)
					continue
				}
				r.add(f.Cat, f.Pos, fmt.Sprintf("%s (%s)", f.Fn, in.name), "token %s, destination %s: %s", f.K, f.E, f.Msg)
			}
			for k, n := range in.rep.Obligations {
				if matches(k, cats) {
					obl[k] += n
				}
			}
			if matches("accept", cats) && in.unknown != nil {
				r.Coverage["indexes not decided on all paths: "+in.name] = limit(in.unknown, 40)
			}
			r.count("instances", 1)
			r.count("pairs of token kind and destination type", in.rep.Pairs)
			r.count("transitions", in.rep.Outcomes)
			for k, n := range in.stat {
				if k != "token kinds" && k != "destination types" {
					r.count(k, n)
				} else {
					r.Coverage[k] = n
				}
			}
		}
		n := 0
		for _, k := range obl {
			n += k
		}
		r.Coverage["obligations"] = n
		r.Coverage["obligations by rule"] = obl
		sort.Strings(undecided)
		r.Coverage["undecided"] = limit(undecided, 200)
		r.Coverage["not analysed"] = limit(unanalysed, 10)
		r.Coverage["rule"] = rule
		r.Explanation = "The function that compiles types is interpreted abstractly over the SSA form for an arbitrary type, its recursive calls replaced by its contract. " + rule
		if sel != nil {
			r.Explanation = "Every path of one iteration of the decoder's main loop is derived symbolically from the SSA form, for every kind of token, every type of the current frame and of its parents, and both instances of the decoder. " + rule
			r.Assumptions = append(r.Assumptions, decodeAssumptions...)
		}
		if tsel != nil {
			r.Assumptions = append(r.Assumptions, typeAssumptions...)
		}
	}
}

func limit(l []string, n int) []string {
	if len(l) > n {
		return append(l[:n:n], fmt.Sprintf("... %d more", len(l)-n))
	}
	return append([]string{}, l...)
}

func matches(k, list string) bool { return list == "*" || in(k, list) }

var decodeAssumptions = []string{
	"the tokenizer (github.com/romshark/jscan/v2) delivers the tokens of a valid JSON value and calls its callback once",
	"frames, tokens, the input and the destination don't overlap",
	"unmarshalers provided by the user don't touch the decoder",
	"indexes into the slices of frames are in bounds",
}

var typeAssumptions = []string{
	"the methods of reflect.Type are functions of the type, and equal types are equal values",
	"the data word of a reflect.Type is the runtime's type",
	"frames appended to keep their place: no frame is written to through a slice that was appended to, which is checked",
}

const (
	scalarTypes = "Bool Str Float32 Float64 Int Int8 Int16 Int32 Int64 Uint Uint8 Uint16 Uint32 Uint64 Number"
	quotedTypes = "BoolString StrString Float32String Float64String IntString Int8String Int16String Int32String Int64String UintString Uint8String Uint16String Uint32String Uint64String NumberString"
	life        = "begin end return nildest cleanup"
)

func init() {
	checks["C05"] = decodeCheck(cat("accept panic bounds"), "accept panic",
		"Obligation: a transition fails exactly if the kind of the token doesn't fit the destination, or its text isn't convertible, no transition panics, and no index into the input or the tokens is out of bounds.")
	checks["C06"] = decodeCheck(cat("errindex errkind return nildest"), "errindex errkind return nildest",
		"Obligation: every failing transition sets the index of the offending token and the specified error, and Decode returns these, or those of the tokenizer, or -1 and nil.")
	checks["C07"] = typedCheck(anyOf(allOf(dest(scalarTypes), not(kind("Null")), cat("value accept address errkind")), cat("value")), "value accept",
		dest(scalarTypes), "type frame",
		"Obligation: the value stored is the specified function of the text of the token.")
	checks["C08"] = decodeCheck(cat("address effects"), "address",
		"Obligation: every write goes to the memory of the destination the transition is for, to memory allocated for it, or to the decoder's own state.")
	checks["C09"] = decodeCheck(anyOf(kind("Null"), cat("null")), "null value",
		"Obligation: null has the specified effect on every type of destination.")
	checks["C10"] = decodeCheck(cat("next frame offset end begin loops member skip element"), "next frame offset end begin member skip element",
		"Obligation: every transition continues at the token after the value, or at its first element, with the frame that's due.")
	checks["C11"] = decodeCheck(cat("alias"), "alias",
		"Obligation: nothing that's stored in the destination or passed to user code refers to the memory of the input.")
	checks["C12"] = typedCheck(anyOf(dest("Ptr PtrRecur"), cat("pointer")), "pointer",
		allOf(dest("Ptr PtrRecur"), not(cat("recursion"))), "type frame link",
		"Obligation: pointers are set to nil, kept, or set to new zeroed memory of the pointee's size and type, and the pointee is decoded in place.")
	checks["C13"] = typedCheck(anyOf(dest("Slice*"), cat("slicelen slicenil slicecap slicecopy element")), "slicelen slicenil slicecap slicecopy element",
		dest("Slice*"), "type frame link",
		"Obligation: slices get exactly the elements of the array, in memory that suffices and is kept if it does.")
	checks["C14"] = typedCheck(anyOf(dest("Array ArrayLen0"), cat("arraylen arrayzero")), "arraylen arrayzero",
		dest("Array ArrayLen0"), "type frame link",
		"Obligation: array elements are written in order, never past the length of the array, and the rest is zeroed.")
	checks["C15"] = typedCheck(anyOf(dest("Map MapRecur MapStringString"), cat("map mapvalue mapreplace key")), "map mapvalue mapreplace key",
		dest("Map MapRecur MapStringString"), "type frame link",
		"Obligation: every member of an object is assigned to the converted key, into a zeroed value, in a map that's created only if it's nil.")
	checks["C16"] = typedCheck(anyOf(dest("Struct StructRecur EmptyStruct"), cat("field fields skip member")), "field fields skip member",
		allOf(dest("Struct EmptyStruct"), not(cat("quoted"))), "type fields frame link",
		"Obligation: keys select the field the matching rules demand, unknown keys are skipped with their value or rejected.")
	checks["C17"] = typedCheck(anyOf(dest("JSONUnmarshaler TextUnmarshaler"), cat("unmarshaler unmarshaltext")), "unmarshaler unmarshaltext",
		anyOf(dest("JSONUnmarshaler TextUnmarshaler")), "type frame",
		"Obligation: unmarshalers are called once, on the destination, with the text of the value, and their error is returned.")
	checks["C18"] = typedCheck(anyOf(dest("Any"), cat("any")), "any",
		dest("Any Interface"), "type frame",
		"Obligation: destinations of type any get the default Go value for the JSON value.")
	checks["C19"] = typedCheck(anyOf(dest("PtrRecur MapRecur SliceRecur StructRecur"), cat("recursion")), "recursion",
		anyOf(cat("recursion"), dest("PtrRecur MapRecur SliceRecur")), "recursion",
		"Obligation: recursive frames are entered with all state suspended and left with all of it restored.")
	checks["C20"] = decodeCheck(cat("begin cleanup state shared effects retained"), "begin cleanup state retained",
		"Obligation: however Decode ends, it leaves no state behind that the next call depends on.")
	checks["C21"] = typedCheck(anyOf(dest(quotedTypes)), "value accept errindex errkind",
		cat("quoted"), "quoted",
		"Obligation: fields with the string option take quoted values of the type only.")
	checks["C22"] = typedCheck(nil, "", allOf(not(dest("NewDecoder Unmarshal Number.*")), not(cat("ends"))), "type frame frames link error fields quoted recursion effects panic stale",
		"Obligation: every type gets the frames its values are decoded by, with all the fields they need, linked to their parents, and unsupported types an error.")
	checks["C26"] = typedCheck(nil, "", dest("Number.*"), "number",
		"Obligation: the methods of Number return the text of the number and its value as 64-bit float and integer, or the error of the conversion.")
	checks["C27"] = endsCheck
	checks["C29"] = typedCheck(cat("memory"), "memory", cat("memory"), "memory",
		"Obligation: the memory allocated for a value is bounded by a multiple of its own elements or its own text, or depends on the type only.")
	checks["C28"] = typedCheck(cat("copied"), "copied", cat("copied"), "copied",
		"Obligation: no text of a string input that's stored is in new memory unless it has escape sequences.")
	checks["C23"] = typedCheck(nil, "", dest("NewDecoder Unmarshal"), "wiring",
		"Obligation: NewDecoder and Unmarshal compile the static type of the destination with the options given, or the default ones, into the frames of the decoder, and pass on errors and arguments.")
}

// endsCheck reports what's repeated forever.
func endsCheck(c *Ctx, r *Report) {
	typedCheck(cat("ends"), "ends", cat("ends"), "ends",
		"Obligation: no iteration of a loop leaves everything the loop depends on as it was, and every transition of the main loop changes its state. For the loops listed it's also proved that they end: something bounded increases or decreases in every iteration.")(c, r)
	var ok, unknown []string
	all := append(append([]*instance{}, c.inst...), c.comp...)
	open := map[string]bool{}
	for _, in := range all {
		for _, l := range in.endless {
			open[l] = true
		}
	}
	seen := map[string]bool{}
	for _, in := range all {
		for _, l := range in.ends {
			if !seen[l] {
				seen[l] = true
				ok = append(ok, l)
			}
		}
	}
	for l := range open {
		unknown = append(unknown, l)
	}
	sort.Strings(ok)
	sort.Strings(unknown)
	r.Coverage["loops proved to end"] = limit(ok, 200)
	r.Coverage["loops not proved to end"] = limit(unknown, 200)
}
