package text

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Env is what the analyses need to know about the program.
type Env struct {
	Inline func(*ssa.Function) bool
	PosOf  func(token.Pos) string
	Tables map[*ssa.Global]*Table
}

func (e Env) analysis(fn *ssa.Function, m Mode, r *Result) *Analysis {
	return &Analysis{Mode: m, Fn: fn, Inline: e.Inline, PosOf: e.PosOf, Globals: e.Tables, Res: r}
}

// CheckInteger decides that fn converts every integer literal exactly or reports
// that it's out of range, for all literals of up to maxLen bytes.
func CheckInteger(e Env, fn *ssa.Function, maxLen int) *Result {
	res := &Result{}
	sig := fn.Signature
	if sig.Results().Len() != 2 {
		res.Findings = append(res.Findings, Finding{"anchor", "-", fn.Name(), "unexpected signature"})
		return res
	}
	w, signed, ok := intType(sig.Results().At(0).Type())
	if !ok {
		res.Findings = append(res.Findings, Finding{"anchor", "-", fn.Name(), "unexpected result type"})
		return res
	}
	max := new(big.Int).Lsh(big.NewInt(1), uint(w))
	min := new(big.Int)
	if signed {
		max.Rsh(max, 1)
		min.Neg(max)
	}
	max.Sub(max, big.NewInt(1))
	signs := []bool{false}
	if signed {
		signs = append(signs, true)
	}
	for _, neg := range signs {
		for l := 1; l <= maxLen; l++ {
			if neg && l < 2 {
				continue
			}
			word := &Word{V: IntegerDFA(signed), VQ: 1, Lo: l, Hi: l, TailAt: -1}
			first := digitSet
			if neg {
				first = setOf("-")
			}
			word.refine(0, first)
			if !word.normalize() {
				continue
			}
			an := e.analysis(fn, ModeDecimal, res)
			an.OnReturn = func(st *State, ret []Val) error {
				// The exact value of the literal.
				want := lin(0)
				p := new(big.Int).SetInt64(1)
				start := 0
				if neg {
					start = 1
				}
				for i := l - 1; i >= start; i-- {
					k := new(big.Int).Set(p)
					if neg {
						k.Neg(k)
					}
					want = want.add(linAtom(i).mul(k), 1)
					p = new(big.Int).Mul(p, big.NewInt(10))
				}
				want = an.fixDigits(st, want)
				lo, hi := an.linRange(st, want)
				fits := lo.Cmp(min) >= 0 && hi.Cmp(max) <= 0
				out := hi.Cmp(min) < 0 || lo.Cmp(max) > 0
				ov, isB := ret[1].(Bool)
				if !isB {
					fail("undecided", "the overflow result is undecided")
				}
				if !fits && !out {
					an.splitDigit(st, want)
				}
				if bool(ov) != out {
					return fmt.Errorf("overflow is reported as %v for a value in [%s,%s]", bool(ov), lo, hi)
				}
				if out {
					return nil
				}
				got, ok := an.toLin(st, an.simple(st, ret[0]))
				if !ok {
					fail("undecided", "the result is undecided")
				}
				got = an.fixDigits(st, an.norm(st, got, w, signed))
				if !got.eq(want) {
					return fmt.Errorf("the result is %s instead of %s", got, want)
				}
				return nil
			}
			an.Run(word, []Val{Str{linAtom(atomA), linAtom(atomE), false}})
			if res.tooMany() {
				return res
			}
		}
	}
	return res
}

// CheckNumber decides that fn reads a number literal up to the end exactly if the
// whole text is one, with the return code telling integers from other numbers.
func CheckNumber(e Env, fn *ssa.Function, rcInteger, rcNumber, rcErr int64) *Result {
	res := &Result{}
	if fn.Signature.Results().Len() != 2 {
		res.Findings = append(res.Findings, Finding{"anchor", "-", fn.Name(), "unexpected signature"})
		return res
	}
	d := NumberDFA()
	word := &Word{V: AnyDFA(), VQ: 1, Lo: 0, Hi: -1, Spec: d, SQ: 0, TailAt: -1}
	an := e.analysis(fn, ModeLex, res)
	an.Canon = true
	an.OnReturn = func(st *State, ret []Val) error {
		rc, ok := an.simple(st, ret[1]).(Lin)
		if !ok || !rc.isConst() {
			fail("undecided", "the return code is undecided")
		}
		w := st.W
		// Is the trailing text empty?
		empty := false
		switch t := ret[0].(type) {
		case Str:
			l := t.End.add(t.Start, -1)
			lo, hi, ok := an.posRange(st, l)
			switch {
			case ok && lo != nil && lo.Sign() > 0:
			case ok && hi != nil && hi.Sign() == 0:
				empty = true
			default:
				if k, ok := remaining(l); ok {
					panic(splitLen{k})
				}
				fail("undecided", "the length of the trailing text is undecided")
			}
		case Nil:
			empty = true
		case Lit:
			empty = t.S == ""
		default:
			fail("undecided", "the trailing text is undecided")
		}
		c := rc.constInt()
		accept := empty && c != rcErr
		// Run the specification over the known bytes.
		q := w.SQ
		for i := 0; i < len(w.Sets) && q >= 0; i++ {
			if w.Lo <= i {
				if w.Hi == i {
					break
				}
				panic(splitLen{i})
			}
			set := w.at(i)
			to := int8(-2)
			var part ByteSet
			amb := false
			set.Each(func(b byte) bool {
				t := d.Next[q][b]
				if to == -2 {
					to = t
				}
				if t == to {
					part.Add(b)
				} else {
					amb = true
				}
				return true
			})
			if amb {
				panic(splitChar{i, part})
			}
			q = int(to)
		}
		known := len(w.Sets)
		if accept {
			if q < 0 {
				return fmt.Errorf("a text that isn't a number is accepted")
			}
			if w.Hi < 0 || w.Hi > known {
				return fmt.Errorf("a text is accepted without being read to its end")
			}
			switch {
			case d.Acc[q] == 0:
				return fmt.Errorf("a text that isn't a number is accepted")
			case d.Acc[q] == KindInteger && c != rcInteger:
				return fmt.Errorf("an integer isn't reported as an integer")
			case d.Acc[q] == KindNumber && c != rcNumber:
				return fmt.Errorf("a number with a fraction or an exponent is reported as an integer")
			}
			return nil
		}
		// Rejected: no word described by the state may be a number.
		if q < 0 {
			return nil
		}
		if w.Hi >= 0 && w.Hi <= known {
			if d.Acc[q] != 0 {
				return fmt.Errorf("a number is rejected")
			}
			return nil
		}
		if d.alive[q] && (w.Lo <= known && d.Acc[q] != 0 || d.canExtend(q, w.Lo-known)) {
			return fmt.Errorf("a text that may be a number is rejected")
		}
		return nil
	}
	an.Run(word, []Val{Str{linAtom(atomA), linAtom(atomE), false}})
	return res
}

// canExtend returns true if a word of at least n more bytes is accepted from q.
func (d *DFA) canExtend(q, n int) bool {
	cur := map[int]bool{q: true}
	for i := 0; i < n; i++ {
		next := map[int]bool{}
		for q := range cur {
			for b := 0; b < 256; b++ {
				if t := d.Next[q][b]; t >= 0 {
					next[int(t)] = true
				}
			}
		}
		cur = next
	}
	for q := range cur {
		if d.alive[q] {
			return true
		}
	}
	return false
}

// CheckUnescape decides that fn returns the value of every string literal.
func CheckUnescape(e Env, fn *ssa.Function) *Result {
	res := &Result{}
	outBytes := false
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
		outBytes = true
	}
	inBytes := false
	if _, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok {
		inBytes = true
	}
	word := &Word{V: StringDFA(), VQ: 1, Lo: 0, Hi: -1, TailAt: -1}
	an := e.analysis(fn, ModeHex, res)
	an.Canon = true
	an.OnReturn = func(st *State, ret []Val) error {
		w := st.W
		atEnd := func(p Lin) error {
			if p.eq(linAtom(atomE)) {
				return nil
			}
			if c, ok := p.atConst(); ok && c >= 0 {
				if w.Hi == c && w.Lo == c {
					return nil
				}
				if w.Lo <= c && (w.Hi < 0 || w.Hi >= c) && !(w.Hi == c) {
					panic(splitLen{c})
				}
			}
			return fmt.Errorf("the result ends before the text does")
		}
		switch r := ret[0].(type) {
		case Nil:
			if w.Hi != 0 {
				return fmt.Errorf("nothing is returned for a non-empty text")
			}
			return nil
		case Lit:
			if r.S != "" || w.Hi != 0 {
				return fmt.Errorf("a constant is returned")
			}
			return nil
		case Str:
			if !r.Start.eq(st.Start) {
				return fmt.Errorf("the result doesn't begin where the text does")
			}
			if err := atEnd(r.End); err != nil {
				return err
			}
			if !an.plainRegion(st, r.Start, r.End) {
				return fmt.Errorf("a text with escape sequences is returned as it is")
			}
			if inBytes && !outBytes && !r.Fresh {
				return fmt.Errorf("a string that shares the memory of the input is returned")
			}
			return nil
		case Buf:
			an.flush(st, &r)
			if len(r.Extra) > 0 {
				return fmt.Errorf("bytes are written that aren't specified")
			}
			return atEnd(r.Upto)
		}
		fail("undecided", "the result is undecided")
		return nil
	}
	an.Run(word, []Val{Str{linAtom(atomA), linAtom(atomE), false}})
	return res
}
