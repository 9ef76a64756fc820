package text

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Val is an abstract value.
type Val interface{}

type (
	// Top is any value.
	Top struct{}
	// Bool is a known truth value.
	Bool bool
	// CharFn is a function of the byte at a position.
	CharFn struct {
		Pos int
		Tab *[256]int64
	}
	// Lin is a linear form with exact integer coefficients. It stands for a machine
	// integer modulo 2^width.
	Lin struct {
		C *big.Int
		T []linTerm // sorted by atom
	}
	linTerm struct {
		A int
		K *big.Int
	}
	// Bits is a bit vector, least significant bit first. 0 and 1 are constants,
	// 2+4*pos+b is bit b of the hexadecimal digit at position pos.
	Bits struct{ B []int }
	// Str is a substring of the input. The positions are linear forms.
	Str struct {
		Start, End Lin
		Fresh      bool // a copy of the input's bytes
	}
	// Lit is a constant string.
	Lit struct{ S string }
	// Buf is a byte buffer holding the specified output of the input up to a
	// position followed by extra bytes.
	Buf struct {
		Upto  Lin
		Extra []Val
		View  bool // a string sharing the buffer's memory
	}
	// Nil is a nil pointer, slice or interface.
	Nil struct{}
	// Iface is an interface holding a value of a concrete type.
	Iface struct {
		T types.Type
		V Val
	}
	// Tuple is a multi-value result.
	Tuple struct{ V []Val }
	// Cell is the address of a local variable or one of its elements.
	Cell struct {
		ID, Idx int
		All     bool // the address of a whole array
	}
	// LocalSlice is a slice of a whole local array.
	LocalSlice struct{ ID, Lo, Hi int }
	// Elem is the address of an element of the input.
	Elem struct{ V Val }
	// Data is the data pointer of a value.
	Data struct{ V Val }
	// Func is a function with bound variables.
	Func struct {
		Fn   interface{}
		Free []Val
	}
)

// Atoms of linear forms: digits are their position, the others are negative.
const (
	atomA      = -1 // the anchor
	atomE      = -2 // the end of the word
	atomMarker = -10
)

func lin(c int64) Lin         { return Lin{C: big.NewInt(c)} }
func linAtom(a int) Lin       { return Lin{C: new(big.Int), T: []linTerm{{a, big.NewInt(1)}}} }
func (l Lin) isConst() bool   { return len(l.T) == 0 }
func (l Lin) constInt() int64 { return l.C.Int64() }

func (l Lin) add(o Lin, k int64) Lin {
	kk := big.NewInt(k)
	out := Lin{C: new(big.Int).Mul(o.C, kk)}
	out.C.Add(out.C, l.C)
	i, j := 0, 0
	for i < len(l.T) || j < len(o.T) {
		switch {
		case j >= len(o.T) || i < len(l.T) && l.T[i].A < o.T[j].A:
			out.T = append(out.T, l.T[i])
			i++
		case i >= len(l.T) || o.T[j].A < l.T[i].A:
			out.T = append(out.T, linTerm{o.T[j].A, new(big.Int).Mul(o.T[j].K, kk)})
			j++
		default:
			s := new(big.Int).Mul(o.T[j].K, kk)
			s.Add(s, l.T[i].K)
			if s.Sign() != 0 {
				out.T = append(out.T, linTerm{l.T[i].A, s})
			}
			i, j = i+1, j+1
		}
	}
	return out
}

func (l Lin) mul(k *big.Int) Lin {
	out := Lin{C: new(big.Int).Mul(l.C, k)}
	if k.Sign() == 0 {
		return out
	}
	for _, t := range l.T {
		out.T = append(out.T, linTerm{t.A, new(big.Int).Mul(t.K, k)})
	}
	return out
}

func (l Lin) eq(o Lin) bool {
	d := l.add(o, -1)
	return d.isConst() && d.C.Sign() == 0
}

// subst replaces atom a by r.
func (l Lin) subst(a int, r Lin) Lin {
	for i, t := range l.T {
		if t.A == a {
			out := Lin{C: l.C, T: append(append([]linTerm(nil), l.T[:i]...), l.T[i+1:]...)}
			return out.add(r.mul(t.K), 1)
		}
	}
	return l
}

func (l Lin) coef(a int) *big.Int {
	for _, t := range l.T {
		if t.A == a {
			return t.K
		}
	}
	return new(big.Int)
}

// atConst returns c if l is the position anchor+c.
func (l Lin) atConst() (int, bool) {
	if len(l.T) == 1 && l.T[0].A == atomA && l.T[0].K.Cmp(big.NewInt(1)) == 0 && l.C.IsInt64() {
		return int(l.C.Int64()), true
	}
	return 0, false
}

func (l Lin) hasPos() bool {
	for _, t := range l.T {
		if t.A < 0 {
			return true
		}
	}
	return false
}

func (l Lin) String() string {
	var b strings.Builder
	b.WriteString(l.C.String())
	for _, t := range l.T {
		n := ""
		switch {
		case t.A >= 0:
			n = fmt.Sprintf("d%d", t.A)
		case t.A == atomA:
			n = "A"
		case t.A == atomE:
			n = "E"
		default:
			n = fmt.Sprintf("M%d", atomMarker-t.A)
		}
		fmt.Fprintf(&b, "%+d*%s", t.K, n)
	}
	return b.String()
}

func (b Bits) String() string { return fmt.Sprint(b.B) }

// show renders a value canonically.
func show(v Val) string {
	switch v := v.(type) {
	case nil:
		return "_"
	case Top:
		return "?"
	case Bool:
		return fmt.Sprint(bool(v))
	case CharFn:
		return fmt.Sprintf("f%d:%p", v.Pos, v.Tab)
	case Lin:
		return v.String()
	case Bits:
		return v.String()
	case Str:
		return fmt.Sprintf("s[%s:%s]%v", v.Start, v.End, v.Fresh)
	case Lit:
		return fmt.Sprintf("%q", v.S)
	case Buf:
		var ex []string
		for _, e := range v.Extra {
			ex = append(ex, show(e))
		}
		return fmt.Sprintf("buf(%s)+%v%v", v.Upto, ex, v.View)
	case Iface:
		return fmt.Sprintf("%s(%s)", v.T, show(v.V))
	case Tuple:
		var ex []string
		for _, e := range v.V {
			ex = append(ex, show(e))
		}
		return fmt.Sprint(ex)
	case Elem:
		return "&" + show(v.V)
	case Data:
		return "data " + show(v.V)
	case Func:
		var ex []string
		for _, e := range v.Free {
			ex = append(ex, show(e))
		}
		return fmt.Sprintf("func %v%v", v.Fn, ex)
	}
	return fmt.Sprintf("%T%v", v, v)
}

// mapPos applies f to all positions within v.
func mapPos(v Val, f func(Lin) Lin, shift func(pos int) (int, bool)) Val {
	switch v := v.(type) {
	case Lin:
		if !v.hasPos() && len(v.T) > 0 {
			out := Lin{C: v.C}
			for _, t := range v.T {
				p, ok := shift(t.A)
				if !ok {
					return Top{}
				}
				out = out.add(linAtom(p).mul(t.K), 1)
			}
			return out
		}
		return f(v)
	case CharFn:
		p, ok := shift(v.Pos)
		if !ok {
			return Top{}
		}
		return CharFn{p, v.Tab}
	case Bits:
		out := Bits{B: make([]int, len(v.B))}
		for i, b := range v.B {
			if b < 2 {
				out.B[i] = b
				continue
			}
			p, ok := shift((b - 2) / 4)
			if !ok {
				return Top{}
			}
			out.B[i] = 2 + 4*p + (b-2)%4
		}
		return out
	case Str:
		return Str{f(v.Start), f(v.End), v.Fresh}
	case Buf:
		o := Buf{Upto: f(v.Upto), View: v.View}
		for _, e := range v.Extra {
			o.Extra = append(o.Extra, mapPos(e, f, shift))
		}
		return o
	case Iface:
		return Iface{v.T, mapPos(v.V, f, shift)}
	case Tuple:
		o := Tuple{}
		for _, e := range v.V {
			o.V = append(o.V, mapPos(e, f, shift))
		}
		return o
	case Elem:
		return Elem{mapPos(v.V, f, shift)}
	case Data:
		return Data{mapPos(v.V, f, shift)}
	case Func:
		o := Func{Fn: v.Fn}
		for _, e := range v.Free {
			o.Free = append(o.Free, mapPos(e, f, shift))
		}
		return o
	}
	return v
}

func sortedKeys[V any](m map[int]V) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}
