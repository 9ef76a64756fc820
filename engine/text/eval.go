package text

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// LenOf is the length of a buffer.
type LenOf struct{ B Buf }

// GElem is the address of an element of a constant table.
type GElem struct {
	G *ssa.Global
	I Val
}

func (an *Analysis) eval(s *State, f *frame, in ssa.Value) Val {
	switch in := in.(type) {
	case *ssa.BinOp:
		return an.binop(s, in.Op, an.val(f, in.X), an.val(f, in.Y), in.X.Type(), in.Y.Type())
	case *ssa.UnOp:
		x := an.val(f, in.X)
		switch in.Op {
		case token.MUL:
			return an.load(s, x)
		case token.SUB:
			return an.binop(s, token.SUB, lin(0), x, in.X.Type(), in.X.Type())
		case token.NOT:
			if b, ok := x.(Bool); ok {
				return Bool(!b)
			}
			return Top{}
		case token.XOR:
			return an.binop(s, token.XOR, lin(-1), x, in.X.Type(), in.X.Type())
		}
	case *ssa.Convert:
		return an.convert(s, an.val(f, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		return an.val(f, in.X)
	case *ssa.MultiConvert:
		return an.convert(s, an.val(f, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		return Iface{in.X.Type(), an.val(f, in.X)}
	case *ssa.ChangeInterface:
		return an.val(f, in.X)
	case *ssa.TypeAssert:
		i, ok := an.val(f, in.X).(Iface)
		if !ok {
			return Top{}
		}
		m := types.Identical(i.T, in.AssertedType)
		v := i.V
		if !m {
			if !in.CommaOk {
				fail("panic", "type assertion to %s fails", in.AssertedType)
			}
			v = zero(in.AssertedType)
		}
		if in.CommaOk {
			return Tuple{[]Val{v, Bool(m)}}
		}
		return v
	case *ssa.Extract:
		if t, ok := an.val(f, in.Tuple).(Tuple); ok {
			return t.V[in.Index]
		}
		return Top{}
	case *ssa.Alloc:
		id := 1
		for k := range s.Cells {
			if k >= id {
				id = k + 1
			}
		}
		n := 1
		if at, ok := in.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			n = int(at.Len())
			if n > 1024 {
				fail("undecided", "large local array")
			}
			z := zero(at.Elem())
			for i := 0; i < n; i++ {
				s.Cells[id] = append(s.Cells[id], z)
			}
			return Cell{ID: id, All: true}
		}
		s.Cells[id] = []Val{zero(in.Type().(*types.Pointer).Elem())}
		return Cell{ID: id}
	case *ssa.IndexAddr:
		x, i := an.val(f, in.X), an.val(f, in.Index)
		switch x := x.(type) {
		case Cell:
			k := an.constIndex(s, i, len(s.Cells[x.ID]))
			return Cell{ID: x.ID, Idx: k}
		case LocalSlice:
			k := an.constIndex(s, i, x.Hi-x.Lo)
			return Cell{ID: x.ID, Idx: x.Lo + k}
		case *ssa.Global:
			return GElem{x, i}
		case Str:
			return Elem{an.index(s, x, i)}
		}
	case *ssa.Index:
		x, i := an.val(f, in.X), an.val(f, in.Index)
		switch x := x.(type) {
		case Str:
			return an.index(s, x, i)
		case Lit:
			k := an.constIndex(s, i, len(x.S))
			return lin(int64(x.S[k]))
		}
	case *ssa.Lookup:
		if x, ok := an.val(f, in.X).(Str); ok {
			return an.index(s, x, an.val(f, in.Index))
		}
		if x, ok := an.val(f, in.X).(Lit); ok {
			return lin(int64(x.S[an.constIndex(s, an.val(f, in.Index), len(x.S))]))
		}
	case *ssa.Slice:
		return an.slice(s, f, in)
	case *ssa.MakeSlice:
		l := an.val(f, in.Len)
		if c, ok := l.(Lin); ok && c.isConst() && c.C.Sign() == 0 {
			return Buf{Upto: s.Start}
		}
	case *ssa.MakeClosure:
		fn := Func{Fn: in.Fn}
		for _, b := range in.Bindings {
			fn.Free = append(fn.Free, an.val(f, b))
		}
		return fn
	}
	fail("undecided", "unsupported construct %T %s", in, in)
	return nil
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return lin(0)
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Lit{""}
		}
	case *types.Slice, *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		return Nil{}
	}
	return Top{}
}

func (an *Analysis) constIndex(s *State, i Val, n int) int {
	l, ok := an.simple(s, i).(Lin)
	if !ok || !l.isConst() {
		fail("undecided", "index is not constant")
	}
	k := l.constInt()
	if k < 0 || int(k) >= n {
		fail("bounds", "index %d out of range of length %d", k, n)
	}
	an.Res.Bounds++
	return int(k)
}

// simple reduces functions of a known byte to constants.
func (an *Analysis) simple(s *State, v Val) Val {
	switch v := v.(type) {
	case CharFn:
		set := s.W.at(v.Pos)
		first, same := true, true
		var x int64
		set.Each(func(b byte) bool {
			if first {
				x, first = v.Tab[b], false
			} else if v.Tab[b] != x {
				same = false
			}
			return same
		})
		if same && !first {
			return lin(x)
		}
	case Bits:
		nb := an.normBits(s, v)
		c := new(big.Int)
		for i, b := range nb.B {
			if b > 1 {
				return nb
			}
			if b == 1 {
				c.SetBit(c, i, 1)
			}
		}
		return Lin{C: c}
	}
	return v
}

func (an *Analysis) load(s *State, x Val) Val {
	switch x := x.(type) {
	case Cell:
		if x.All {
			break
		}
		return s.Cells[x.ID][x.Idx]
	case Elem:
		return x.V
	case GElem:
		t := an.Globals[x.G]
		if t == nil {
			break
		}
		switch i := an.simple(s, x.I).(type) {
		case Lin:
			if i.isConst() {
				k := an.constIndex(s, i, len(t.V))
				return lin(t.V[k])
			}
		case CharFn:
			var tab [256]int64
			s.W.at(i.Pos).Each(func(b byte) bool {
				k := i.Tab[b]
				if k < 0 || int(k) >= len(t.V) {
					fail("bounds", "table index %d out of range", k)
				}
				tab[b] = t.V[k]
				return true
			})
			an.Res.Bounds++
			return CharFn{i.Pos, intern(&tab)}
		}
	}
	fail("undecided", "load from an unresolved address")
	return nil
}

var (
	tabs   = map[[256]int64]*[256]int64{}
	tabsMu sync.Mutex
)

func intern(t *[256]int64) *[256]int64 {
	tabsMu.Lock()
	defer tabsMu.Unlock()
	if p := tabs[*t]; p != nil {
		return p
	}
	c := *t
	tabs[c] = &c
	return &c
}

var identTab = func() *[256]int64 {
	var t [256]int64
	for i := range t {
		t[i] = int64(i)
	}
	return intern(&t)
}()

// index returns byte i of x after proving that it exists.
func (an *Analysis) index(s *State, x Str, i Val) Val {
	k, ok := an.simple(s, i).(Lin)
	if !ok {
		fail("undecided", "index is not a position")
	}
	pos := x.Start.add(k, 1)
	c, ok := pos.atConst()
	if !ok {
		fail("undecided", "index %s is not relative to the cursor", pos)
	}
	if k.isConst() && k.C.Sign() < 0 {
		fail("bounds", "negative index")
	}
	if c < 0 {
		// Behind the anchor: anything the string starts at or before.
		d := pos.add(x.Start, -1)
		if d.isConst() && d.C.Sign() >= 0 {
			return Top{}
		}
		fail("bounds", "index before the start of the string")
	}
	// k >= 0
	if d := k; !d.isConst() {
		if !an.nonNeg(s, d) {
			fail("bounds", "index may be negative")
		}
	}
	// pos < End
	if e, ok := x.End.atConst(); ok {
		if c >= e {
			fail("bounds", "index out of range")
		}
	} else if !x.End.eq(linAtom(atomE)) {
		fail("undecided", "end of the string is unknown")
	}
	if s.W.Lo <= c {
		if s.W.Hi >= 0 && s.W.Hi <= c {
			fail("bounds", "index %d out of range", c)
		}
		// Partition: the short words are a violation.
		panic(splitLen{c})
	}
	an.Res.Bounds++
	return CharFn{c, identTab}
}

func (an *Analysis) nonNeg(s *State, l Lin) bool {
	if l.isConst() {
		return l.C.Sign() >= 0
	}
	lo, _, ok := an.posRange(s, l)
	return ok && lo != nil && lo.Sign() >= 0
}

// posRange bounds a difference of positions.
func (an *Analysis) posRange(s *State, l Lin) (lo, hi *big.Int, ok bool) {
	// E = A + R, M_i = A - D_i with R in [Lo,Hi], D_i >= 0
	sum := new(big.Int)
	r := new(big.Int)
	lo, hi = new(big.Int).Set(l.C), new(big.Int).Set(l.C)
	for _, t := range l.T {
		switch {
		case t.A == atomA:
			sum.Add(sum, t.K)
		case t.A == atomE:
			sum.Add(sum, t.K)
			r.Add(r, t.K)
		case t.A <= atomMarker:
			sum.Add(sum, t.K)
			// -K * D
			if t.K.Sign() > 0 {
				lo = nil
			} else {
				hi = nil
			}
		default:
			return nil, nil, false
		}
		if lo == nil && hi == nil {
			return nil, nil, false
		}
	}
	if sum.Sign() != 0 {
		return nil, nil, false
	}
	add := func(p **big.Int, v int, unbounded bool) {
		if *p == nil {
			return
		}
		if unbounded {
			*p = nil
			return
		}
		*p = new(big.Int).Add(*p, new(big.Int).Mul(r, big.NewInt(int64(v))))
	}
	switch r.Sign() {
	case 1:
		add(&lo, s.W.Lo, false)
		add(&hi, s.W.Hi, s.W.Hi < 0)
	case -1:
		add(&lo, s.W.Hi, s.W.Hi < 0)
		add(&hi, s.W.Lo, false)
	}
	return lo, hi, true
}

func (an *Analysis) slice(s *State, f *frame, in *ssa.Slice) Val {
	x := an.val(f, in.X)
	get := func(v ssa.Value) (Lin, bool) {
		if v == nil {
			return Lin{}, false
		}
		l, ok := an.simple(s, an.val(f, v)).(Lin)
		if !ok {
			fail("undecided", "slice bound is unknown")
		}
		return l, true
	}
	lo, hasLo := get(in.Low)
	hi, hasHi := get(in.High)
	switch x := x.(type) {
	case Cell:
		n := len(s.Cells[x.ID])
		r := LocalSlice{x.ID, 0, n}
		if hasLo {
			r.Lo = int(lo.constInt())
		}
		if hasHi {
			r.Hi = int(hi.constInt())
		}
		return r
	case Lit:
		l, h := 0, len(x.S)
		if hasLo {
			l = int(lo.constInt())
		}
		if hasHi {
			h = int(hi.constInt())
		}
		if l < 0 || h < l || h > len(x.S) {
			fail("bounds", "slice out of range")
		}
		return Lit{x.S[l:h]}
	case Buf:
		if !hasLo && hasHi && hi.isConst() && hi.C.Sign() == 0 {
			return Buf{Upto: s.Start}
		}
	case Str:
		r := Str{x.Start, x.End, x.Fresh}
		if hasLo {
			r.Start = x.Start.add(lo, 1)
		}
		if hasHi {
			r.End = x.Start.add(hi, 1)
		}
		an.proveOrder(s, x.Start, r.Start)
		an.proveOrder(s, r.Start, r.End)
		an.proveOrder(s, r.End, x.End)
		an.Res.Bounds++
		return r
	}
	fail("undecided", "slice of an unresolved value %s", show(x))
	return nil
}

// proveOrder proves a <= b.
func (an *Analysis) proveOrder(s *State, a, b Lin) {
	d := b.add(a, -1)
	if an.nonNeg(s, d) {
		return
	}
	// d = R - k: partition by the length.
	if k, ok := remaining(d); ok {
		if s.W.Hi >= 0 && s.W.Hi < k {
			fail("bounds", "slice out of range")
		}
		panic(splitLen{k - 1})
	}
	if d.isConst() {
		fail("bounds", "slice out of range")
	}
	fail("bounds", "slice bounds %s <= %s can't be shown", a, b)
}

// remaining returns k if l = E - A - k.
func remaining(l Lin) (int, bool) {
	if len(l.T) == 2 && l.coef(atomE).Cmp(big.NewInt(1)) == 0 &&
		l.coef(atomA).Cmp(big.NewInt(-1)) == 0 && l.C.IsInt64() {
		return int(-l.C.Int64()), true
	}
	return 0, false
}

func wrap(v int64, w int, signed bool) int64 {
	if w == 64 {
		return v
	}
	m := int64(1)<<w - 1
	v &= m
	if signed && v > m>>1 {
		v -= m + 1
	}
	return v
}

func wrapBig(c *big.Int, w int, signed bool) *big.Int {
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int).Mod(c, mod)
	if signed && r.Bit(w-1) == 1 {
		r.Sub(r, mod)
	}
	return r
}

func (an *Analysis) convert(s *State, x Val, from, to types.Type) Val {
	fw, fs, ok1 := intType(from)
	tw, ts, ok2 := intType(to)
	if ok1 && ok2 {
		switch v := x.(type) {
		case CharFn:
			var t [256]int64
			for i := range t {
				t[i] = wrap(v.Tab[i], tw, ts)
			}
			return CharFn{v.Pos, intern(&t)}
		case Lin:
			if v.isConst() {
				return Lin{C: wrapBig(v.C, tw, ts)}
			}
			if v.hasPos() {
				return v
			}
			return an.norm(s, v, fw, fs)
		case Bits:
			o := Bits{B: make([]int, tw)}
			for i := range o.B {
				if i < len(v.B) {
					o.B[i] = v.B[i]
				} else if fs && len(v.B) > 0 {
					o.B[i] = v.B[len(v.B)-1]
				}
			}
			return o
		}
		return Top{}
	}
	// string <-> []byte
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	switch v := x.(type) {
	case Str:
		if isStr(from) != isStr(to) {
			return Str{v.Start, v.End, true}
		}
		return v
	case Lit, Nil:
		return v
	case Buf:
		return Buf{v.Upto, v.Extra, false}
	}
	fail("undecided", "conversion from %s to %s", from, to)
	return nil
}

// digitRange returns the range of the digit at position p.
func (an *Analysis) digitRange(s *State, p int) (lo, hi int64) {
	set := s.W.at(p)
	lo, hi = 1<<30, -1
	set.Each(func(b byte) bool {
		d := int64(b) - '0'
		if d < lo {
			lo = d
		}
		if d > hi {
			hi = d
		}
		return true
	})
	return
}

func (an *Analysis) linRange(s *State, l Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.C), new(big.Int).Set(l.C)
	for _, t := range l.T {
		a, b := an.digitRange(s, t.A)
		x := new(big.Int).Mul(t.K, big.NewInt(a))
		y := new(big.Int).Mul(t.K, big.NewInt(b))
		if t.K.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return
}

// splitDigit partitions the digit with the largest influence on l.
func (an *Analysis) splitDigit(s *State, l Lin) {
	best, bestW := -1, new(big.Int)
	for _, t := range l.T {
		a, b := an.digitRange(s, t.A)
		if a == b {
			continue
		}
		w := new(big.Int).Abs(t.K)
		w.Mul(w, big.NewInt(b-a))
		if w.Cmp(bestW) > 0 {
			best, bestW = t.A, w
		}
	}
	if best < 0 {
		fail("undecided", "value %s can't be partitioned", l)
	}
	a, b := an.digitRange(s, best)
	panic(splitChar{best, setRange(int('0'+a), int('0'+(a+b)/2))})
}

// fixDigits substitutes known digits.
func (an *Analysis) fixDigits(s *State, l Lin) Lin {
	for _, t := range l.T {
		if t.A >= 0 {
			if a, b := an.digitRange(s, t.A); a == b {
				l = l.subst(t.A, lin(a))
			}
		}
	}
	return l
}

// norm returns the linear form of the machine value.
func (an *Analysis) norm(s *State, l Lin, w int, signed bool) Lin {
	if l.hasPos() {
		return l
	}
	if l.isConst() {
		return Lin{C: wrapBig(l.C, w, signed)}
	}
	lo, hi := an.linRange(s, l)
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	min := new(big.Int)
	if signed {
		min.Rsh(mod, 1)
		min.Neg(min)
	}
	k1 := new(big.Int).Div(lo.Sub(lo, min), mod)
	k2 := new(big.Int).Div(hi.Sub(hi, min), mod)
	if k1.Cmp(k2) != 0 {
		an.splitDigit(s, l)
	}
	if k1.Sign() == 0 {
		return l
	}
	return l.add(Lin{C: k1.Mul(k1, mod)}, -1)
}

// toLin converts a function of a digit to a linear form.
func (an *Analysis) toLin(s *State, v Val) (Lin, bool) {
	switch v := an.simple(s, v).(type) {
	case Lin:
		return v, true
	case CharFn:
		set := s.W.at(v.Pos)
		if !set.Minus(digitSet).Empty() {
			// Separate digits from other bytes.
			if set.And(digitSet).Empty() {
				return Lin{}, false
			}
			panic(splitChar{v.Pos, digitSet})
		}
		var xs, ys []int64
		set.Each(func(b byte) bool {
			xs, ys = append(xs, int64(b)-'0'), append(ys, v.Tab[b])
			return true
		})
		a := (ys[1] - ys[0]) / (xs[1] - xs[0])
		c := ys[0] - a*xs[0]
		for i := range xs {
			if a*xs[i]+c != ys[i] {
				panic(splitChar{v.Pos, setRange('0', int('0'+xs[len(xs)/2]-1))})
			}
		}
		return linAtom(v.Pos).mul(big.NewInt(a)).add(lin(c), 1), true
	}
	return Lin{}, false
}

func hexVal(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return -1
}

// toBits converts a value of width w to a bit vector.
func (an *Analysis) toBits(s *State, v Val, w int) (Bits, bool) {
	switch v := an.simple(s, v).(type) {
	case Bits:
		if len(v.B) != w {
			o := Bits{B: make([]int, w)}
			copy(o.B, v.B)
			return o, true
		}
		return v, true
	case Lin:
		if !v.isConst() {
			return Bits{}, false
		}
		c := wrapBig(v.C, w, false)
		o := Bits{B: make([]int, w)}
		for i := range o.B {
			o.B[i] = int(c.Bit(i))
		}
		return o, true
	case CharFn:
		set := s.W.at(v.Pos)
		// Per bit: constant or one of the bits of the hexadecimal digit.
		o := Bits{B: make([]int, w)}
		for i := range o.B {
			found := -1
			for cand := 0; cand < 6 && found < 0; cand++ {
				ok := true
				set.Each(func(b byte) bool {
					want := 0
					switch cand {
					case 0:
					case 1:
						want = 1
					default:
						h := hexVal(b)
						if h < 0 {
							ok = false
							return false
						}
						want = h >> (cand - 2) & 1
					}
					if int(v.Tab[b]>>uint(i)&1) != want {
						ok = false
					}
					return ok
				})
				if ok {
					found = cand
				}
			}
			switch {
			case found < 0:
				return Bits{}, false
			case found < 2:
				o.B[i] = found
			default:
				o.B[i] = 2 + 4*v.Pos + found - 2
			}
		}
		return o, true
	}
	return Bits{}, false
}

// normBits replaces known bits by constants.
func (an *Analysis) normBits(s *State, v Bits) Bits {
	o := Bits{B: make([]int, len(v.B))}
	for i, b := range v.B {
		o.B[i] = b
		if b < 2 {
			continue
		}
		pos, bit := (b-2)/4, (b-2)%4
		zero, one := false, false
		s.W.at(pos).Each(func(c byte) bool {
			if hexVal(c)>>bit&1 == 1 {
				one = true
			} else {
				zero = true
			}
			return !(zero && one)
		})
		if one && !zero {
			o.B[i] = 1
		} else if zero && !one {
			o.B[i] = 0
		}
	}
	return o
}

func splitBit(b int) {
	pos, bit := (b-2)/4, (b-2)%4
	var set ByteSet
	hexSet.Each(func(c byte) bool {
		if hexVal(c)>>bit&1 == 1 {
			set.Add(c)
		}
		return true
	})
	panic(splitChar{pos, set})
}

func (an *Analysis) binop(s *State, op token.Token, x, y Val, tx, ty types.Type) Val {
	x, y = an.simple(s, x), an.simple(s, y)
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return an.compare(s, op, x, y, tx)
	}
	w, signed, ok := intType(tx)
	if !ok {
		return Top{}
	}
	cx, isCX := x.(CharFn)
	cy, isCY := y.(CharFn)
	lx, isLX := x.(Lin)
	ly, isLY := y.(Lin)
	// Constants.
	if isLX && isLY && lx.isConst() && ly.isConst() {
		return constOp(op, lx, ly, w, signed)
	}
	// Pointwise on a single byte.
	if isCX && (isLY && ly.isConst() && ly.C.IsInt64() || isCY && cy.Pos == cx.Pos) ||
		isCY && isLX && lx.isConst() && lx.C.IsInt64() {
		var t [256]int64
		ok := true
		pos := cx.Pos
		if !isCX {
			pos = cy.Pos
		}
		s.W.at(pos).Each(func(b byte) bool {
			var p, q Lin
			if isCX {
				p = lin(cx.Tab[b])
			} else {
				p = lx
			}
			if isCY {
				q = lin(cy.Tab[b])
			} else {
				q = ly
			}
			r, isL := constOp(op, p, q, w, signed).(Lin)
			if !isL || !r.C.IsInt64() {
				ok = false
				return false
			}
			t[b] = r.C.Int64()
			return true
		})
		if ok {
			return CharFn{pos, intern(&t)}
		}
	}
	if an.Mode == ModeHex {
		if r, ok := an.bitop(s, op, x, y, w); ok {
			return r
		}
	}
	a, okA := an.toLin(s, x)
	b, okB := an.toLin(s, y)
	if !okA || !okB {
		return Top{}
	}
	switch op {
	case token.ADD:
		return an.fixDigits(s, a.add(b, 1))
	case token.SUB:
		return an.fixDigits(s, a.add(b, -1))
	case token.MUL:
		a, b = an.fixDigits(s, a), an.fixDigits(s, b)
		if b.isConst() {
			return a.mul(b.C)
		}
		if a.isConst() {
			return b.mul(a.C)
		}
		// Partition until one of the factors is known.
		an.splitDigit(s, b)
	case token.SHL:
		if b.isConst() && b.C.Sign() >= 0 && b.C.Cmp(big.NewInt(64)) < 0 {
			return a.mul(new(big.Int).Lsh(big.NewInt(1), uint(b.C.Int64())))
		}
	case token.QUO, token.REM:
		a, b = an.norm(s, a, w, signed), an.norm(s, b, w, signed)
		if b.isConst() && b.C.Sign() > 0 {
			lo, hi := an.linRange(s, a)
			if lo.Sign() >= 0 {
				q1, q2 := new(big.Int).Quo(lo, b.C), new(big.Int).Quo(hi, b.C)
				if q1.Cmp(q2) == 0 {
					if op == token.QUO {
						return Lin{C: q1}
					}
					return a.add(Lin{C: q1.Mul(q1, b.C)}, -1)
				}
			}
			an.splitDigit(s, a)
		}
	}
	return Top{}
}

func constOp(op token.Token, x, y Lin, w int, signed bool) Val {
	a, b := x.C, y.C
	r := new(big.Int)
	switch op {
	case token.ADD:
		r.Add(a, b)
	case token.SUB:
		r.Sub(a, b)
	case token.MUL:
		r.Mul(a, b)
	case token.QUO:
		if b.Sign() == 0 {
			fail("panic", "division by zero")
		}
		r.Quo(wrapBig(a, w, signed), wrapBig(b, w, signed))
	case token.REM:
		if b.Sign() == 0 {
			fail("panic", "division by zero")
		}
		r.Rem(wrapBig(a, w, signed), wrapBig(b, w, signed))
	case token.AND:
		r.And(a, b)
	case token.OR:
		r.Or(a, b)
	case token.XOR:
		r.Xor(a, b)
	case token.AND_NOT:
		r.AndNot(a, b)
	case token.SHL:
		if b.Sign() < 0 || b.Cmp(big.NewInt(200)) > 0 {
			return Top{}
		}
		r.Lsh(a, uint(b.Int64()))
	case token.SHR:
		if b.Sign() < 0 || b.Cmp(big.NewInt(200)) > 0 {
			return Top{}
		}
		r.Rsh(wrapBig(a, w, signed), uint(b.Int64()))
	default:
		return Top{}
	}
	return Lin{C: wrapBig(r, w, signed)}
}

func (an *Analysis) bitop(s *State, op token.Token, x, y Val, w int) (Val, bool) {
	// Positions are not bit vectors.
	for _, v := range []Val{x, y} {
		if l, ok := v.(Lin); ok && !l.isConst() {
			return nil, false
		}
	}
	a, ok := an.toBits(s, x, w)
	if !ok {
		return nil, false
	}
	if op == token.SHL || op == token.SHR {
		l, ok := y.(Lin)
		if !ok || !l.isConst() || l.C.Sign() < 0 {
			return nil, false
		}
		k := int(l.C.Int64())
		o := Bits{B: make([]int, w)}
		for i := range o.B {
			src := i - k
			if op == token.SHR {
				src = i + k
			}
			if src >= 0 && src < w {
				o.B[i] = a.B[src]
			}
		}
		return an.simple(s, o), true
	}
	b, ok := an.toBits(s, y, w)
	if !ok {
		return nil, false
	}
	a, b = an.normBits(s, a), an.normBits(s, b)
	o := Bits{B: make([]int, w)}
	carry := 0
	for i := range o.B {
		p, q := a.B[i], b.B[i]
		switch op {
		case token.AND:
			switch {
			case p == 0 || q == 0:
			case p == 1:
				o.B[i] = q
			case q == 1 || p == q:
				o.B[i] = p
			default:
				splitBit(p)
			}
		case token.OR:
			switch {
			case p == 1 || q == 1:
				o.B[i] = 1
			case p == 0:
				o.B[i] = q
			case q == 0 || p == q:
				o.B[i] = p
			default:
				splitBit(p)
			}
		case token.XOR, token.AND_NOT:
			if p > 1 && q == 0 {
				o.B[i] = p
				continue
			}
			if op == token.AND_NOT && q == 1 {
				continue
			}
			if p > 1 {
				splitBit(p)
			}
			if q > 1 {
				if p == 0 && op == token.XOR {
					o.B[i] = q
					continue
				}
				splitBit(q)
			}
			if op == token.XOR {
				o.B[i] = p ^ q
			} else {
				o.B[i] = p &^ q
			}
		case token.ADD:
			switch {
			case carry == 0 && q == 0:
				o.B[i] = p
			case carry == 0 && p == 0:
				o.B[i] = q
			case p > 1:
				splitBit(p)
			case q > 1:
				splitBit(q)
			default:
				sum := p + q + carry
				o.B[i], carry = sum&1, sum>>1
			}
		case token.SUB:
			switch {
			case carry == 0 && q == 0:
				o.B[i] = p
			case p > 1:
				splitBit(p)
			case q > 1:
				splitBit(q)
			default:
				d := p - q - carry
				carry = 0
				if d < 0 {
					carry = 1
				}
				o.B[i] = d & 1
			}
		default:
			return nil, false
		}
	}
	return an.simple(s, o), true
}

func cmpHolds(op token.Token, sign int) bool {
	switch op {
	case token.EQL:
		return sign == 0
	case token.NEQ:
		return sign != 0
	case token.LSS:
		return sign < 0
	case token.LEQ:
		return sign <= 0
	case token.GTR:
		return sign > 0
	case token.GEQ:
		return sign >= 0
	}
	return false
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// decide returns the truth of "d op 0" for d in [lo,hi].
func decide(op token.Token, lo, hi *big.Int) (res, ok bool) {
	var sLo, sHi int
	if lo == nil {
		sLo = -1
	} else {
		sLo = lo.Sign()
	}
	if hi == nil {
		sHi = 1
	} else {
		sHi = hi.Sign()
	}
	t, f := false, false
	for sg := sLo; sg <= sHi; sg++ {
		if cmpHolds(op, sg) {
			t = true
		} else {
			f = true
		}
	}
	return t, t != f
}

func (an *Analysis) compare(s *State, op token.Token, x, y Val, t types.Type) Val {
	if bx, ok := x.(Bool); ok {
		if by, ok := y.(Bool); ok {
			return Bool((bx == by) == (op == token.EQL))
		}
		return Top{}
	}
	if _, ok := x.(Nil); ok {
		x, y = y, x
	}
	if _, ok := y.(Nil); ok {
		switch x.(type) {
		case Nil:
			return Bool(op == token.EQL)
		case Str, Buf, Iface, Func, Cell, LocalSlice:
			return Bool(op != token.EQL)
		}
		return Top{}
	}
	if lx, ok := x.(Lit); ok {
		if ly, ok := y.(Lit); ok {
			sign := 0
			if lx.S < ly.S {
				sign = -1
			} else if lx.S > ly.S {
				sign = 1
			}
			return Bool(cmpHolds(op, sign))
		}
		x, y, op = y, x, flip(op)
	}
	if sx, ok := x.(Str); ok {
		if ly, ok := y.(Lit); ok && (op == token.EQL || op == token.NEQ) {
			return Bool(an.equalLit(s, sx, ly.S) == (op == token.EQL))
		}
		return Top{}
	}
	w, signed, ok := intType(t)
	if !ok {
		return Top{}
	}
	if _, ok := x.(Lin); ok {
		if _, ok := y.(CharFn); ok {
			x, y, op = y, x, flip(op)
		}
	}
	if cx, ok := x.(CharFn); ok {
		if ly, ok := y.(Lin); ok && ly.isConst() {
			var tr ByteSet
			set := s.W.at(cx.Pos)
			set.Each(func(b byte) bool {
				if cmpHolds(op, big.NewInt(cx.Tab[b]).Cmp(ly.C)) {
					tr.Add(b)
				}
				return true
			})
			switch {
			case tr == set:
				return Bool(true)
			case tr.Empty():
				return Bool(false)
			}
			panic(splitChar{cx.Pos, tr})
		}
		if cy, ok := y.(CharFn); ok && cy.Pos == cx.Pos {
			var tr ByteSet
			set := s.W.at(cx.Pos)
			set.Each(func(b byte) bool {
				if cmpHolds(op, big.NewInt(cx.Tab[b]).Cmp(big.NewInt(cy.Tab[b]))) {
					tr.Add(b)
				}
				return true
			})
			switch {
			case tr == set:
				return Bool(true)
			case tr.Empty():
				return Bool(false)
			}
			panic(splitChar{cx.Pos, tr})
		}
	}
	lx, okX := x.(Lin)
	ly, okY := y.(Lin)
	if okX && okY && (lx.hasPos() || ly.hasPos() || lx.isConst() && ly.isConst()) {
		if lx.isConst() && ly.isConst() {
			return Bool(cmpHolds(op, wrapBig(lx.C, w, signed).Cmp(wrapBig(ly.C, w, signed))))
		}
		d := lx.add(ly, -1)
		if d.isConst() {
			return Bool(cmpHolds(op, d.C.Sign()))
		}
		lo, hi, ok := an.posRange(s, d)
		if ok {
			if r, ok := decide(op, lo, hi); ok {
				return Bool(r)
			}
		}
		if k, ok := remaining(d); ok {
			// d = R - k
			if op == token.EQL || op == token.NEQ {
				if s.W.Lo < k {
					panic(splitLen{k - 1})
				}
				panic(splitLen{k})
			}
			if op == token.LSS || op == token.GEQ {
				panic(splitLen{k - 1})
			}
			panic(splitLen{k})
		}
		if k, ok := remaining(lin(0).add(d, -1)); ok {
			// d = k - R
			if op == token.EQL || op == token.NEQ {
				if s.W.Lo < k {
					panic(splitLen{k - 1})
				}
				panic(splitLen{k})
			}
			if op == token.LSS || op == token.GEQ {
				panic(splitLen{k})
			}
			panic(splitLen{k - 1})
		}
		return Top{}
	}
	if an.Mode == ModeHex {
		a, ok1 := an.toBits(s, x, w)
		b, ok2 := an.toBits(s, y, w)
		if ok1 && ok2 {
			a, b = an.normBits(s, a), an.normBits(s, b)
			if signed && (a.B[w-1] != 0 || b.B[w-1] != 0) {
				return Top{}
			}
			for i := w - 1; i >= 0; i-- {
				p, q := a.B[i], b.B[i]
				if p == q {
					continue
				}
				if p > 1 {
					an.splitOrDecide(s, a, b, op, p)
				}
				if q > 1 {
					an.splitOrDecide(s, a, b, op, q)
				}
				if p < q {
					return Bool(cmpHolds(op, -1))
				}
				return Bool(cmpHolds(op, 1))
			}
			return Bool(cmpHolds(op, 0))
		}
	}
	a, ok1 := an.toLin(s, x)
	b, ok2 := an.toLin(s, y)
	if !ok1 || !ok2 {
		return Top{}
	}
	a, b = an.norm(s, a, w, signed), an.norm(s, b, w, signed)
	d := a.add(b, -1)
	lo, hi := an.linRange(s, d)
	if r, ok := decide(op, lo, hi); ok {
		return Bool(r)
	}
	an.splitDigit(s, d)
	return nil
}

func (an *Analysis) splitOrDecide(s *State, a, b Bits, op token.Token, bit int) {
	splitBit(bit)
}

// equalLit decides whether the string equals a constant.
func (an *Analysis) equalLit(s *State, x Str, lit string) bool {
	c, ok := x.Start.atConst()
	if !ok || c < 0 {
		fail("undecided", "comparison of a string behind the cursor")
	}
	if e, ok := x.End.atConst(); ok {
		if e-c != len(lit) {
			return false
		}
	} else if x.End.eq(linAtom(atomE)) {
		if s.W.Lo > c+len(lit) || s.W.Hi >= 0 && s.W.Hi < c+len(lit) {
			return false
		}
		if s.W.Lo != s.W.Hi {
			if s.W.Lo < c+len(lit) {
				panic(splitLen{c + len(lit) - 1})
			}
			panic(splitLen{c + len(lit)})
		}
	} else {
		fail("undecided", "comparison of an unknown string")
	}
	for i := 0; i < len(lit); i++ {
		set := s.W.at(c + i)
		if !set.Has(lit[i]) {
			return false
		}
		if set.Len() > 1 {
			panic(splitChar{c + i, setOf(lit[i : i+1])})
		}
	}
	return true
}

// call executes a call and returns true if a frame was pushed.
func (an *Analysis) call(s *State, f *frame, in *ssa.Call) bool {
	c := in.Common()
	var args []Val
	for _, a := range c.Args {
		args = append(args, an.val(f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		f.env[in] = an.builtin(s, b.Name(), args, c)
		return false
	}
	if c.IsInvoke() {
		fail("undecided", "dynamic call")
	}
	var fn *ssa.Function
	var free []Val
	switch v := an.val(f, c.Value).(type) {
	case Func:
		fn, _ = v.Fn.(*ssa.Function)
		free = v.Free
	}
	if fn == nil {
		fail("undecided", "call of an unresolved function")
	}
	if fn.Blocks != nil && an.Inline(fn) {
		if len(s.Frames) > 12 {
			fail("undecided", "call depth")
		}
		nf := &frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}, call: in}
		for i, p := range fn.Params {
			nf.env[p] = args[i]
		}
		for i, p := range fn.FreeVars {
			nf.env[p] = free[i]
		}
		s.Frames = append(s.Frames, nf)
		return true
	}
	name := fn.String()
	switch name {
	case "strings.IndexByte", "bytes.IndexByte":
		an.indexByte(s, f, in, args)
		return false
	}
	fail("undecided", "call of %s", name)
	return false
}

func (an *Analysis) builtin(s *State, name string, args []Val, c *ssa.CallCommon) Val {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return x.End.add(x.Start, -1)
		case Lit:
			return lin(int64(len(x.S)))
		case Nil:
			return lin(0)
		case LocalSlice:
			return lin(int64(x.Hi - x.Lo))
		case Buf:
			return LenOf{x}
		}
	case "append":
		b, ok := args[0].(Buf)
		if _, isNil := args[0].(Nil); isNil {
			b, ok = Buf{Upto: s.Start}, true
		}
		if !ok || b.View {
			break
		}
		an.flush(s, &b)
		switch x := args[1].(type) {
		case LocalSlice:
			for i := x.Lo; i < x.Hi; i++ {
				b.Extra = append(b.Extra[:len(b.Extra):len(b.Extra)], s.Cells[x.ID][i])
			}
		case Lit:
			for i := 0; i < len(x.S); i++ {
				b.Extra = append(b.Extra[:len(b.Extra):len(b.Extra)], lin(int64(x.S[i])))
			}
		case Nil:
		case Str:
			if len(b.Extra) == 0 && b.Upto.eq(x.Start) && an.plainRegion(s, x.Start, x.End) {
				b.Upto = x.End
				break
			}
			p, ok1 := x.Start.atConst()
			q, ok2 := x.End.atConst()
			if !ok1 || !ok2 || p < 0 || q-p > 64 {
				fail("transduction", "the bytes appended don't follow those already unescaped (%s after %s; %v)", show(x), show(b), s.Plain)
			}
			for i := p; i < q; i++ {
				b.Extra = append(b.Extra[:len(b.Extra):len(b.Extra)], CharFn{i, identTab})
			}
		default:
			fail("undecided", "append of an unresolved value")
		}
		an.flush(s, &b)
		return b
	case "SliceData", "StringData":
		return Data{args[0]}
	case "String", "Slice":
		if d, ok := args[0].(Data); ok {
			switch x := d.V.(type) {
			case Buf:
				if l, ok := args[1].(LenOf); ok && show(l.B) == show(x) {
					return Buf{x.Upto, x.Extra, true}
				}
			case Str:
				if l, ok := args[1].(Lin); ok && l.eq(x.End.add(x.Start, -1)) {
					return x
				}
			}
		}
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
	}
	fail("undecided", "unsupported use of %s", name)
	return nil
}

// plainRegion returns true if all bytes from a to b are plain.
func (an *Analysis) plainRegion(s *State, a, b Lin) bool {
	if a.eq(b) {
		return true
	}
	from, ok := a.atConst()
	if !ok {
		// A marker with an offset.
		if len(a.T) != 1 || a.T[0].A > atomMarker || !a.C.IsInt64() {
			return false
		}
		back, ok := s.Plain[a.T[0].A]
		if !ok || back < 0 || a.C.Int64() < -int64(back) || a.C.Sign() > 0 {
			return false
		}
		from = 0
	}
	if from < 0 {
		return false
	}
	to, ok := b.atConst()
	if !ok {
		if !b.eq(linAtom(atomE)) {
			return false
		}
		switch {
		case s.W.TailAt >= 0:
			to = s.W.TailAt
		case s.W.Hi >= 0:
			if s.W.Lo != s.W.Hi {
				panic(splitLen{s.W.Lo})
			}
			to = s.W.Hi
		default:
			return false
		}
	}
	for i := from; i < to; i++ {
		set := s.W.at(i)
		if set.Minus(plainSet).Empty() {
			continue
		}
		if set.And(plainSet).Empty() {
			return false
		}
		panic(splitChar{i, plainSet})
	}
	return true
}

func (an *Analysis) indexByte(s *State, f *frame, in *ssa.Call, args []Val) {
	x, ok := args[0].(Str)
	c, ok2 := an.simple(s, args[1]).(Lin)
	if l, isLit := args[0].(Lit); isLit && ok2 {
		for i := 0; i < len(l.S); i++ {
			if int64(l.S[i]) == c.constInt() {
				f.env[in] = lin(int64(i))
				return
			}
		}
		f.env[in] = lin(-1)
		return
	}
	if !ok || !ok2 || !c.isConst() || c.constInt() != '\\' || !x.End.eq(linAtom(atomE)) {
		fail("undecided", "unsupported search")
	}
	k, ok := x.Start.atConst()
	if !ok || k < 0 {
		fail("undecided", "search behind the cursor")
	}
	// The search consumes the word, pending output has to be verified before.
	flushAll := func(s *State) {
		for _, fr := range s.Frames {
			for _, v := range sortedVals(fr.env) {
				if b, ok := fr.env[v].(Buf); ok {
					an.flush(s, &b)
					fr.env[v] = b
				}
			}
		}
	}
	flushAll(s)
	if s.W.TailAt >= 0 && s.W.TailAt <= k {
		f.env[in] = lin(-1)
		return
	}
	d := len(s.Frames) - 1
	panic(splitFork{[]func(*State){
		func(st *State) {
			st.W.TailAt = k
			fr := st.Frames[d]
			fr.env[in] = lin(-1)
			fr.pc++
		},
		func(st *State) {
			flushAll(st)
			st.jump(an, k)
			fr := st.Frames[d]
			y := an.val(fr, in.Common().Args[0]).(Str)
			fr.env[in] = linAtom(atomA).add(y.Start, -1)
			fr.pc++
		},
	}})
}

// jump moves the anchor to the first reverse solidus at or after position k.
func (s *State) jump(an *Analysis, k int) {
	w := s.W
	back := 0
	for back < k && w.at(k-back-1).Minus(plainSet).Empty() {
		back++
	}
	an.advance(s, k)
	m := atomMarker - s.nextM
	s.nextM++
	np := map[int]int{}
	for o, v := range s.Plain {
		np[o] = v
	}
	plain := w.VQ == 1
	np[m] = -1
	if plain {
		np[m] = back
	}
	if !plain {
		for o := range np {
			np[o] = -1
		}
	}
	s.Plain = np
	qs := w.VQ
	for {
		n := qs | w.V.post(qs, allBytes.Minus(bsSet), 0, -1)
		if n == qs {
			break
		}
		qs = n
	}
	w.VQ = qs
	w.Sets = []ByteSet{bsSet}
	w.Lo = 1
	w.TailAt = -1
	s.mapAll(func(l Lin) Lin { return l.subst(atomA, linAtom(m)) },
		func(p int) (int, bool) { return 0, false })
}

// escapeTab maps the byte after a reverse solidus to the byte it stands for.
var escapeTab = func() *[256]int64 {
	t := [256]int64{'"': '"', '\\': '\\', '/': '/', 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
	return intern(&t)
}()

// flush verifies the bytes written against the specified output.
func (an *Analysis) flush(s *State, b *Buf) {
	for len(b.Extra) > 0 {
		c, ok := b.Upto.atConst()
		if !ok || c < 0 {
			return
		}
		if s.W.Lo <= c {
			if s.W.Hi >= 0 && s.W.Hi <= c {
				fail("transduction", "more bytes are written than specified")
			}
			panic(splitLen{c})
		}
		set := s.W.at(c)
		if set.Has('\\') && set.Len() > 1 {
			panic(splitChar{c, bsSet})
		}
		if !set.Has('\\') {
			an.match(s, b, []Val{CharFn{c, identTab}}, 1)
			continue
		}
		if s.W.Lo <= c+1 {
			panic(splitLen{c + 1})
		}
		next := s.W.at(c + 1)
		if next.Has('u') && next.Len() > 1 {
			panic(splitChar{c + 1, setOf("u")})
		}
		if !next.Has('u') {
			an.match(s, b, []Val{CharFn{c + 1, escapeTab}}, 2)
			continue
		}
		out, n := an.specUnicode(s, c)
		if len(b.Extra) < len(out) {
			// Written byte by byte.
			for i := range b.Extra {
				an.matchByte(s, b.Extra[i], out[i])
			}
			return
		}
		an.match(s, b, out, n)
	}
}

func (an *Analysis) match(s *State, b *Buf, out []Val, n int) {
	for i := range out {
		an.matchByte(s, b.Extra[i], out[i])
	}
	b.Upto = b.Upto.add(lin(int64(n)), 1)
	b.Extra = append([]Val(nil), b.Extra[len(out):]...)
	an.Res.Bounds++
}

func (an *Analysis) matchByte(s *State, got, want Val) {
	g, w := an.simple(s, got), an.simple(s, want)
	if cg, ok := g.(CharFn); ok {
		if cw, ok := w.(CharFn); ok && cg.Pos == cw.Pos {
			s.W.at(cg.Pos).Each(func(c byte) bool {
				if cg.Tab[c] != cw.Tab[c] {
					fail("transduction", "byte 0x%02x is written where 0x%02x is specified for %q",
						cg.Tab[c], cw.Tab[c], c)
				}
				return true
			})
			return
		}
	}
	if lg, ok := g.(Lin); ok {
		if lw, ok := w.(Lin); ok {
			if !lg.eq(lw) {
				fail("transduction", "byte %s is written where %s is specified", lg, lw)
			}
			return
		}
	}
	bg, ok1 := an.toBits(s, g, 8)
	bw, ok2 := an.toBits(s, w, 8)
	if ok1 && ok2 {
		bg, bw = an.normBits(s, bg), an.normBits(s, bw)
		if fmt.Sprint(bg.B) == fmt.Sprint(bw.B) {
			return
		}
	}
	fail("transduction", "the byte written (%s) isn't the specified one (%s)", show(g), show(w))
}

// specUnicode returns the UTF-8 encoding of the \u escape at position c and the
// length of the escape.
func (an *Analysis) specUnicode(s *State, c int) ([]Val, int) {
	unit := func(p int) Bits {
		o := Bits{B: make([]int, 32)}
		for d := 0; d < 4; d++ {
			for b := 0; b < 4; b++ {
				o.B[(3-d)*4+b] = 2 + 4*(p+2+d) + b
			}
		}
		return o
	}
	less := func(x Bits, k int64) bool {
		return bool(an.compare(s, token.LSS, x, lin(k), types.Typ[types.Uint32]).(Bool))
	}
	if s.W.Lo < c+6 {
		panic(splitLen{c + 5})
	}
	r := unit(c)
	field := func(x Bits, lo, n int, prefix int) Val {
		o := Bits{B: make([]int, 8)}
		for i := range o.B {
			o.B[i] = prefix >> i & 1
		}
		for i := 0; i < n; i++ {
			o.B[i] = x.B[lo+i]
		}
		return o
	}
	switch {
	case less(r, 0x80):
		return []Val{field(r, 0, 8, 0)}, 6
	case less(r, 0x800):
		return []Val{field(r, 6, 5, 0xC0), field(r, 0, 6, 0x80)}, 6
	case less(r, 0xD800) || !less(r, 0xE000):
		return []Val{field(r, 12, 4, 0xE0), field(r, 6, 6, 0x80), field(r, 0, 6, 0x80)}, 6
	}
	lone := []Val{lin(0xEF), lin(0xBF), lin(0xBD)}
	if !less(r, 0xDC00) {
		return lone, 6
	}
	if s.W.Lo <= c+6 {
		if s.W.Hi >= 0 && s.W.Hi <= c+6 {
			return lone, 6
		}
		panic(splitLen{c + 6})
	}
	for i, ch := range []string{"\\", "u"} {
		set := s.W.at(c + 6 + i)
		if !set.Has(ch[0]) {
			return lone, 6
		}
		if set.Len() > 1 {
			panic(splitChar{c + 6 + i, setOf(ch)})
		}
		if i == 0 && s.W.Lo <= c+7 {
			panic(splitLen{c + 7})
		}
	}
	if s.W.Lo < c+12 {
		panic(splitLen{c + 11})
	}
	low := unit(c + 6)
	if less(low, 0xDC00) || !less(low, 0xE000) {
		return lone, 6
	}
	u32 := types.Typ[types.Uint32]
	hi := an.binop(s, token.SHL, an.binop(s, token.SUB, r, lin(0xD800), u32, u32), lin(10), u32, u32)
	cp := an.binop(s, token.ADD, hi, an.binop(s, token.SUB, low, lin(0xDC00), u32, u32), u32, u32)
	cp = an.binop(s, token.ADD, cp, lin(0x10000), u32, u32)
	x, ok := an.toBits(s, cp, 32)
	if !ok {
		fail("undecided", "code point")
	}
	return []Val{field(x, 18, 3, 0xF0), field(x, 12, 6, 0x80), field(x, 6, 6, 0x80), field(x, 0, 6, 0x80)}, 12
}
