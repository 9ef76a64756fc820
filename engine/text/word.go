// Package text is an abstract interpreter for the functions that consume the text
// of a JSON token. The input is an abstract word: a set of possible bytes for every
// position that was looked at, an interval for the number of remaining bytes and
// the state of an automaton that describes all words the function may be given.
// Integers are linear forms over the decimal digits of the word, bit vectors over
// the hexadecimal digits of the word, functions of a single byte or differences of
// positions. Undecided branches partition the abstract word, loops are iterated to
// a fixpoint over states rebased to the current position.
package text

import "math/bits"

// ByteSet is a set of bytes.
type ByteSet [4]uint64

func (s *ByteSet) Add(b byte)     { s[b>>6] |= 1 << (b & 63) }
func (s ByteSet) Has(b byte) bool { return s[b>>6]&(1<<(b&63)) != 0 }
func (s ByteSet) And(o ByteSet) ByteSet {
	return ByteSet{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]}
}
func (s ByteSet) Minus(o ByteSet) ByteSet {
	return ByteSet{s[0] &^ o[0], s[1] &^ o[1], s[2] &^ o[2], s[3] &^ o[3]}
}
func (s ByteSet) Empty() bool { return s == ByteSet{} }
func (s ByteSet) Len() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) +
		bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s ByteSet) Each(f func(b byte) bool) {
	for i := 0; i < 256; i++ {
		if s.Has(byte(i)) && !f(byte(i)) {
			return
		}
	}
}
func (s ByteSet) First() byte {
	for i := 0; i < 256; i++ {
		if s.Has(byte(i)) {
			return byte(i)
		}
	}
	return 0
}

func setOf(str string) (s ByteSet) {
	for i := 0; i < len(str); i++ {
		s.Add(str[i])
	}
	return
}

func setRange(lo, hi int) (s ByteSet) {
	for i := lo; i <= hi; i++ {
		s.Add(byte(i))
	}
	return
}

var (
	allBytes  = setRange(0, 255)
	digitSet  = setRange('0', '9')
	hexSet    = setOf("0123456789abcdefABCDEF")
	quoteSet  = setOf("\"\\")
	plainSet  = setRange(0x20, 255).Minus(quoteSet)
	escapeSet = setOf("\"\\/bfnrtu")
	bsSet     = setOf("\\")
)

// DFA is a deterministic automaton over bytes. State -1 is dead.
type DFA struct {
	Next []([256]int8)
	Acc  []int // 0 = not accepting, otherwise the kind of the accepted word
	// alive[q] is true if an accepting state is reachable from q.
	alive []bool
	// minLen[q] is the length of the shortest accepted word from q.
	minLen []int
	// maxLen[q] is the length of the longest accepted word from q.
	maxLen []int
}

func newDFA(n int) *DFA {
	d := &DFA{Next: make([][256]int8, n), Acc: make([]int, n)}
	for i := range d.Next {
		for j := range d.Next[i] {
			d.Next[i][j] = -1
		}
	}
	return d
}

func (d *DFA) edge(from int, set ByteSet, to int) {
	set.Each(func(b byte) bool { d.Next[from][b] = int8(to); return true })
}

func (d *DFA) done() *DFA {
	n := len(d.Next)
	d.alive, d.minLen = make([]bool, n), make([]int, n)
	for q := range d.minLen {
		d.minLen[q] = 1 << 20
		if d.Acc[q] != 0 {
			d.alive[q], d.minLen[q] = true, 0
		}
	}
	for changed := true; changed; {
		changed = false
		for q := 0; q < n; q++ {
			for b := 0; b < 256; b++ {
				t := d.Next[q][b]
				if t < 0 || !d.alive[t] {
					continue
				}
				if !d.alive[q] || d.minLen[t]+1 < d.minLen[q] {
					d.alive[q], changed = true, true
					d.minLen[q] = d.minLen[t] + 1
				}
			}
		}
	}
	// A walk longer than the number of states contains a cycle.
	d.maxLen = make([]int, n)
	can := make([]bool, n)
	copy(can, boolsOf(d.Acc))
	for l := 0; l <= n; l++ {
		next := make([]bool, n)
		for q := 0; q < n; q++ {
			if can[q] {
				d.maxLen[q] = l
				if l == n {
					d.maxLen[q] = 1 << 20
				}
			}
			for b := 0; b < 256; b++ {
				if t := d.Next[q][b]; t >= 0 && can[t] {
					next[q] = true
				}
			}
		}
		can = next
	}
	return d
}

func boolsOf(a []int) []bool {
	out := make([]bool, len(a))
	for i := range a {
		out[i] = a[i] != 0
	}
	return out
}

// Kinds of numbers accepted by NumberDFA.
const (
	KindInteger = 1
	KindNumber  = 2
)

// NumberDFA accepts exactly the number literals of RFC 8259.
func NumberDFA() *DFA {
	d := newDFA(9)
	const start, minus, zero, integer, dot, frac, e, esign, exp = 0, 1, 2, 3, 4, 5, 6, 7, 8
	nz := setRange('1', '9')
	d.edge(start, setOf("-"), minus)
	for _, q := range []int{start, minus} {
		d.edge(q, setOf("0"), zero)
		d.edge(q, nz, integer)
	}
	d.edge(integer, digitSet, integer)
	for _, q := range []int{zero, integer} {
		d.edge(q, setOf("."), dot)
		d.edge(q, setOf("eE"), e)
		d.Acc[q] = KindInteger
	}
	d.edge(dot, digitSet, frac)
	d.edge(frac, digitSet, frac)
	d.edge(frac, setOf("eE"), e)
	d.Acc[frac] = KindNumber
	d.edge(e, setOf("+-"), esign)
	d.edge(e, digitSet, exp)
	d.edge(esign, digitSet, exp)
	d.edge(exp, digitSet, exp)
	d.Acc[exp] = KindNumber
	return d.done()
}

// IntegerDFA accepts integer literals, optionally with a sign.
func IntegerDFA(signed bool) *DFA {
	d := newDFA(4)
	if signed {
		d.edge(0, setOf("-"), 1)
	}
	for _, q := range []int{0, 1} {
		d.edge(q, setOf("0"), 2)
		d.edge(q, setRange('1', '9'), 3)
	}
	d.edge(3, digitSet, 3)
	d.Acc[2], d.Acc[3] = KindInteger, KindInteger
	return d.done()
}

// AnyDFA accepts every word.
func AnyDFA() *DFA {
	d := newDFA(1)
	d.edge(0, allBytes, 0)
	d.Acc[0] = 1
	return d.done()
}

// StringDFA accepts the contents of JSON string literals.
func StringDFA() *DFA {
	d := newDFA(6)
	d.edge(0, plainSet, 0)
	d.edge(0, bsSet, 1)
	d.edge(1, escapeSet.Minus(setOf("u")), 0)
	d.edge(1, setOf("u"), 2)
	for q := 2; q <= 4; q++ {
		d.edge(q, hexSet, q+1)
	}
	d.edge(5, hexSet, 0)
	d.Acc[0] = 1
	return d.done()
}

// fits returns true if a word of lo to hi bytes (-1 = unbounded) is accepted from q.
func (d *DFA) fits(q int8, lo, hi int) bool {
	return q >= 0 && d.alive[q] && d.maxLen[q] >= lo && (hi < 0 || d.minLen[q] <= hi)
}

// post returns the states reachable from the states qs (a bit mask) by a byte of
// set that lo to hi more bytes may follow.
func (d *DFA) post(qs uint32, set ByteSet, lo, hi int) (out uint32) {
	for q := range d.Next {
		if qs&(1<<q) == 0 {
			continue
		}
		for b := 0; b < 256; b++ {
			if t := d.Next[q][b]; set.Has(byte(b)) && d.fits(t, lo, hi) {
				out |= 1 << t
			}
		}
	}
	return
}

// allowed returns the bytes that lead from qs to a live state.
func (d *DFA) allowed(qs uint32, lo, hi int) (s ByteSet) {
	for q := range d.Next {
		if qs&(1<<q) == 0 {
			continue
		}
		for b := 0; b < 256; b++ {
			if t := d.Next[q][b]; d.fits(t, lo, hi) {
				s.Add(byte(b))
			}
		}
	}
	return
}

// Word is the abstract input from the anchor on.
type Word struct {
	V      *DFA
	VQ     uint32 // possible states of V at the anchor
	Sets   []ByteSet
	Lo     int // bounds of the number of bytes from the anchor to the end
	Hi     int // -1 = unbounded
	Spec   *DFA
	SQ     int // state of the specification automaton at the anchor, -1 = dead
	TailAt int // all bytes from this position on are plain, -1 = unknown
}

func (w *Word) clone() *Word {
	c := *w
	c.Sets = append([]ByteSet(nil), w.Sets...)
	return &c
}

// at returns the possible bytes at position i.
func (w *Word) at(i int) ByteSet {
	qs := w.VQ
	for k := 0; k < i; k++ {
		lo, hi := w.after(k)
		qs = w.V.post(qs, w.raw(k), lo, hi)
	}
	lo, hi := w.after(i)
	return w.raw(i).And(w.V.allowed(qs, lo, hi))
}

// after returns the bounds of the number of bytes after position k.
func (w *Word) after(k int) (lo, hi int) {
	if lo = w.Lo - k - 1; lo < 0 {
		lo = 0
	}
	if hi = -1; w.Hi >= 0 {
		if hi = w.Hi - k - 1; hi < 0 {
			hi = 0
		}
	}
	return
}

func (w *Word) raw(i int) ByteSet {
	s := allBytes
	if i < len(w.Sets) {
		s = w.Sets[i]
	}
	if w.TailAt >= 0 && i >= w.TailAt {
		s = s.And(plainSet)
	}
	return s
}

func (w *Word) refine(i int, s ByteSet) {
	for len(w.Sets) <= i {
		w.Sets = append(w.Sets, allBytes)
	}
	w.Sets[i] = w.Sets[i].And(s)
}

// normalize propagates knowledge and returns false if no word is left.
func (w *Word) normalize() bool {
	// Looked-at positions must exist.
	if n := len(w.Sets); w.Hi >= 0 && n > w.Hi {
		for _, s := range w.Sets[w.Hi:] {
			if s != allBytes {
				return false
			}
		}
		w.Sets = w.Sets[:w.Hi]
	}
	qs := w.VQ
	acc := func(qs uint32) bool {
		for q := range w.V.Acc {
			if qs&(1<<q) != 0 && w.V.Acc[q] != 0 {
				return true
			}
		}
		return false
	}
	for k := 0; k < len(w.Sets); k++ {
		if w.Lo == k {
			// May the word end here?
			if w.Sets[k] != allBytes || !acc(qs) {
				w.Lo = k + 1
				if w.Hi >= 0 && w.Lo > w.Hi {
					return false
				}
			}
		}
		lo, hi := w.after(k)
		if w.Lo > k {
			s := w.raw(k).And(w.V.allowed(qs, lo, hi))
			if s.Empty() {
				return false
			}
			if w.Sets[k] != allBytes {
				w.Sets[k] = s
			}
		}
		qs = w.V.post(qs, w.raw(k), lo, hi)
		if qs == 0 {
			return false
		}
	}
	// The shortest completion bounds the length.
	if w.Lo <= len(w.Sets) {
		min := 1 << 20
		for q := range w.V.minLen {
			if qs&(1<<q) != 0 && w.V.minLen[q] < min {
				min = w.V.minLen[q]
			}
		}
		if w.Lo == len(w.Sets) && w.Lo < len(w.Sets)+min {
			w.Lo = len(w.Sets) + min
		}
	}
	if w.Hi >= 0 && w.Lo > w.Hi {
		return false
	}
	if w.Hi >= 0 && w.Hi == len(w.Sets) && w.Lo == w.Hi && !acc(qs) {
		return false
	}
	return true
}
