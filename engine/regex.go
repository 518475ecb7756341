package main

// Symbolic leftmost-first regexp matching over the compiled program of the
// real regexp/syntax package.

import (
	"regexp"
	"regexp/syntax"
	"unicode"
)

type NatRegexp struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
	sets map[uint32][2]uint64 // ASCII membership per instruction
}

func newNatRegexp(src string) (*NatRegexp, error) {
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	p, _ := syntax.Parse(src, syntax.Perl)
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	n := &NatRegexp{src: src, re: re, prog: prog, sets: map[uint32][2]uint64{}}
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			var s [2]uint64
			for b := 0; b < 128; b++ {
				if in.MatchRune(rune(b)) {
					s[b>>6] |= 1 << (uint(b) & 63)
				}
			}
			n.sets[uint32(i)] = s
		}
	}
	return n, nil
}

// inSet builds membership of an ASCII byte term in a 128-bit set.
func (m *Machine) inSet(t *Term, s [2]uint64) *Term {
	r := falseT
	for i := 0; i < 128; {
		if s[i>>6]>>(uint(i)&63)&1 == 0 {
			i++
			continue
		}
		j := i
		for j+1 < 128 && s[(j+1)>>6]>>(uint(j+1)&63)&1 == 1 {
			j++
		}
		var c *Term
		if i == j {
			c = m.tt.Eq(t, mkConst(8, uint64(i)))
		} else {
			c = m.tt.And(m.tt.Bin(OUle, mkConst(8, uint64(i)), t), m.tt.Bin(OUle, t, mkConst(8, uint64(j))))
		}
		r = m.tt.Or(r, c)
		i = j + 1
	}
	return r
}

func (m *Machine) runeMatches(in *syntax.Inst, r *Term) *Term {
	if r.op == OConst {
		return mkBool(in.MatchRune(rune(r.val)))
	}
	tt := m.tt
	c := func(x rune) *Term { return mkConst(32, uint64(x)) }
	switch in.Op {
	case syntax.InstRuneAny:
		return trueT
	case syntax.InstRuneAnyNotNL:
		return tt.Not(tt.Eq(r, c('\n')))
	}
	if len(in.Rune) == 1 {
		r0 := in.Rune[0]
		res := tt.Eq(r, c(r0))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(r0); f != r0; f = unicode.SimpleFold(f) {
				res = tt.Or(res, tt.Eq(r, c(f)))
			}
		}
		return res
	}
	res := falseT
	for i := 0; i+1 < len(in.Rune); i += 2 {
		res = tt.Or(res, tt.And(tt.Bin(OUle, c(in.Rune[i]), r), tt.Bin(OUle, r, c(in.Rune[i+1]))))
	}
	return res
}

type btKey struct {
	pc  uint32
	pos int
}
type btState struct {
	m       *Machine
	re      *NatRegexp
	s       []*Term
	visited map[btKey]bool
	cap     []int
	found   []int
	dec     map[int]struct {
		r  *Term
		sz int
	}
}

func (b *btState) isWord(i int) *Term {
	if i < 0 || i >= len(b.s) {
		return falseT
	}
	var s [2]uint64
	for c := 0; c < 128; c++ {
		if c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' {
			s[c>>6] |= 1 << (uint(c) & 63)
		}
	}
	return b.m.inSet(b.s[i], s)
}

func (b *btState) try(pc uint32, pos int) bool {
	for {
		k := btKey{pc, pos}
		in := &b.re.prog.Inst[pc]
		if in.Op == syntax.InstAlt || in.Op == syntax.InstAltMatch || in.Op == syntax.InstRune || in.Op == syntax.InstRune1 {
			if b.visited[k] {
				return false
			}
			b.visited[k] = true
		}
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			if b.try(in.Out, pos) {
				return true
			}
			pc = in.Arg
			continue
		case syntax.InstMatch:
			b.cap[1] = pos
			b.found = append([]int(nil), b.cap...)
			return true
		case syntax.InstNop:
			pc = in.Out
			continue
		case syntax.InstCapture:
			if int(in.Arg) < len(b.cap) {
				old := b.cap[in.Arg]
				b.cap[in.Arg] = pos
				if b.try(in.Out, pos) {
					return true
				}
				b.cap[in.Arg] = old
				return false
			}
			pc = in.Out
			continue
		case syntax.InstEmptyWidth:
			ok := trueT
			f := syntax.EmptyOp(in.Arg)
			if f&syntax.EmptyBeginText != 0 {
				ok = b.m.tt.And(ok, mkBool(pos == 0))
			}
			if f&syntax.EmptyEndText != 0 {
				ok = b.m.tt.And(ok, mkBool(pos == len(b.s)))
			}
			if f&syntax.EmptyBeginLine != 0 && pos != 0 {
				ok = b.m.tt.And(ok, b.m.tt.Eq(b.s[pos-1], mkConst(8, '\n')))
			}
			if f&syntax.EmptyEndLine != 0 && pos != len(b.s) {
				ok = b.m.tt.And(ok, b.m.tt.Eq(b.s[pos], mkConst(8, '\n')))
			}
			if f&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				ne := b.m.tt.Not(b.m.tt.Eq(b.isWord(pos-1), b.isWord(pos)))
				if f&syntax.EmptyWordBoundary != 0 {
					ok = b.m.tt.And(ok, ne)
				} else {
					ok = b.m.tt.And(ok, b.m.tt.Not(ne))
				}
			}
			if !b.m.branch(ok) {
				return false
			}
			pc = in.Out
			continue
		default: // rune instructions
			if pos >= len(b.s) {
				return false
			}
			t := b.s[pos]
			// quick rejection/acceptance by ASCII set
			if b.m.branch(b.m.tt.Bin(OUlt, t, mkConst(8, 0x80))) {
				if !b.m.branch(b.m.inSet(t, b.re.sets[pc])) {
					return false
				}
				pos++
			} else {
				d, ok := b.dec[pos]
				if !ok {
					d.r, d.sz = b.m.decodeRune(b.s[pos:])
					b.dec[pos] = d
				}
				if !b.m.branch(b.m.runeMatches(in, d.r)) {
					return false
				}
				pos += d.sz
			}
			pc = in.Out
			continue
		}
	}
}

// reFind returns the submatch indices of the leftmost-first match at or after pos.
func (m *Machine) reFind(re *NatRegexp, v Value, pos int) []int {
	if s, ok := v.(string); ok && pos == 0 {
		return re.re.FindStringSubmatchIndex(s)
	}
	s := strBytes(v)
	n := 2 * (re.re.NumSubexp() + 1)
	b := &btState{m: m, re: re, s: s, visited: map[btKey]bool{}, dec: map[int]struct {
		r  *Term
		sz int
	}{}}
	anch := re.prog.StartCond()&syntax.EmptyBeginText != 0
	for st := pos; st <= len(s); {
		b.cap = make([]int, n)
		for i := range b.cap {
			b.cap[i] = -1
		}
		b.cap[0] = st
		if b.try(uint32(re.prog.Start), st) {
			return b.found
		}
		if anch {
			return nil
		}
		if st < len(s) {
			if m.branch(m.tt.Bin(OUlt, s[st], mkConst(8, 0x80))) {
				st++
			} else {
				d, ok := b.dec[st]
				if !ok {
					d.r, d.sz = m.decodeRune(s[st:])
					b.dec[st] = d
				}
				st += d.sz
			}
		} else {
			st++
		}
	}
	return nil
}

// reAll mirrors (*Regexp).allMatches.
func (m *Machine) reAll(re *NatRegexp, v Value, n int) [][]int {
	if s, ok := v.(string); ok {
		return re.re.FindAllStringSubmatchIndex(s, n)
	}
	end := strLen(v)
	if n < 0 {
		n = end + 1
	}
	var out [][]int
	for pos, prevEnd := 0, -1; len(out) < n && pos <= end; {
		mt := m.reFind(re, v, pos)
		if mt == nil {
			break
		}
		accept := true
		if mt[1] == pos {
			if mt[0] == prevEnd {
				accept = false
			}
			if pos < end {
				_, sz := m.decodeRune(strBytes(v)[pos:])
				pos += sz
			} else {
				pos = end + 1
			}
		} else {
			pos = mt[1]
		}
		prevEnd = mt[1]
		if accept {
			out = append(out, mt)
		}
	}
	return out
}
