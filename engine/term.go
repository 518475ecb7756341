package main

// Hash-consed bit-vector / boolean terms with local simplification.
// Width 0 means Bool.  Constants are not hash-consed (compared by value) so that
// they can be shared between workers.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OExtract // low bits only
	ONeg
	OBNot
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", ONeg: "bvneg", OBNot: "bvnot"}

type Term struct {
	op      Op
	w       uint8
	val     uint64 // const value / var index
	a, b, c *Term
	id      uint32 // per-TermTable id; 0 for constants
	dep     *Term  // the single variable the term depends on, multiDep if several, nil if none
	set     *[4]uint64
	defd    uint32 // solver generation in which it was emitted
}

var multiDep = &Term{}

var trueT = &Term{op: OConst, w: 0, val: 1}
var falseT = &Term{op: OConst, w: 0, val: 0}
var byteConsts [256]*Term
var smallConsts [65][1024]*Term

func init() {
	for w := 1; w <= 64; w++ {
		for i := 0; i < 1024; i++ {
			if w < 10 && i >= 1<<w {
				break
			}
			smallConsts[w][i] = &Term{op: OConst, w: uint8(w), val: uint64(i)}
		}
	}
	for i := range byteConsts {
		byteConsts[i] = smallConsts[8][i]
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mkConst(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return trueT
		}
		return falseT
	}
	v &= mask(w)
	if v < 1024 {
		return smallConsts[w][v]
	}
	return &Term{op: OConst, w: w, val: v}
}
func mkBool(b bool) *Term {
	if b {
		return trueT
	}
	return falseT
}
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sext(v uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint64
}

func tid(t *Term) uint64 {
	if t == nil {
		return 0
	}
	if t.op == OConst {
		if t.val < 1<<40 {
			return uint64(1)<<63 | uint64(t.w)<<40 | t.val
		}
		return uint64(1)<<63 | uint64(1)<<62 | (t.val*0x9E3779B97F4A7C15)>>8
	}
	return uint64(t.id)
}

// TermTable owns the non-constant terms of one worker.
type TermTable struct {
	tab     map[tkey]*Term
	next    uint32
	vars    []*Term
	cmpMemo map[cmpKey]*Term
}

func newTermTable() *TermTable {
	return &TermTable{tab: map[tkey]*Term{}, next: 1, cmpMemo: map[cmpKey]*Term{}}
}

func (tt *TermTable) Var(idx int, w uint8) *Term {
	return tt.mk(OVar, w, uint64(idx)<<8|uint64(w), nil, nil, nil)
}

func sameTerm(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val
}

func joinDep(x, y *Term) *Term {
	if x == nil {
		return y
	}
	if y == nil || x == y {
		return x
	}
	return multiDep
}

func (tt *TermTable) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op, w, val, tid(a), tid(b), tid(c)}
	if t, ok := tt.tab[k]; ok && sameTerm(t.a, a) && sameTerm(t.b, b) && sameTerm(t.c, c) {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: tt.next}
	tt.next++
	if op == OVar {
		t.dep = t
	} else {
		if a != nil {
			t.dep = a.dep
		}
		if b != nil {
			t.dep = joinDep(t.dep, b.dep)
		}
		if c != nil {
			t.dep = joinDep(t.dep, c.dep)
		}
	}
	tt.tab[k] = t
	return t
}

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return mkBool(a.val == 0)
	case ONot:
		return a.a
	}
	return tt.mk(ONot, 0, 0, a, nil, nil)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return falseT
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return falseT
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return falseT
	}
	return tt.mk(OAnd, 0, 0, a, b, nil)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 1 {
			return trueT
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return trueT
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return trueT
	}
	return tt.mk(OOr, 0, 0, a, b, nil)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if sameTerm(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return tt.Or(c, b)
		}
		if a.isFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.isTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.isFalse() {
			return tt.And(c, a)
		}
	}
	if c.op == ONot {
		return tt.mk(OIte, a.w, 0, c.a, b, a)
	}
	return tt.mk(OIte, a.w, 0, c, a, b)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return mkBool(a.val == b.val)
	}
	if a == b {
		return trueT
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
	} else if b.op == OConst {
		switch a.op {
		case OZExt:
			if b.val > mask(a.a.w) {
				return falseT
			}
			return tt.Eq(a.a, mkConst(a.a.w, b.val))
		case OSExt:
			lo := b.val & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.val {
				return falseT
			}
			return tt.Eq(a.a, mkConst(a.a.w, lo))
		case OIte:
			return tt.distCmp(OEq, a, b, true)
		case OAdd:
			if a.b.op == OConst {
				return tt.Eq(a.a, mkConst(a.w, b.val-a.b.val))
			}
		case OSub:
			if a.b.op == OConst {
				return tt.Eq(a.a, mkConst(a.w, b.val+a.b.val))
			}
			if b.val == 0 {
				return tt.Eq(a.a, a.b)
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tt.mk(OEq, 0, 0, a, b, nil)
}

type cmpKey struct {
	op   Op
	t    *Term
	k    uint64
	left bool
}

func nonNeg(t *Term) bool {
	switch t.op {
	case OZExt:
		return t.a.w < t.w
	case OConst:
		return t.val>>(t.w-1) == 0
	}
	return false
}

// distCmp pushes a comparison with constant k into an if-then-else.
func (tt *TermTable) distCmp(op Op, t, k *Term, left bool) *Term {
	key := cmpKey{op, t, k.val, left}
	if r, ok := tt.cmpMemo[key]; ok {
		return r
	}
	var x, y *Term
	switch {
	case op == OEq:
		x, y = tt.Eq(t.b, k), tt.Eq(t.c, k)
	case left:
		x, y = tt.Bin(op, t.b, k), tt.Bin(op, t.c, k)
	default:
		x, y = tt.Bin(op, k, t.b), tt.Bin(op, k, t.c)
	}
	r := tt.Ite(t.a, x, y)
	tt.cmpMemo[key] = r
	return r
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, w) < sext(y, w))
	case OSle:
		return b2u(sext(x, w) <= sext(y, w))
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Bin builds arithmetic, bitwise and comparison operators.
func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		r := evalBin(op, w, a.val, b.val)
		switch op {
		case OUlt, OUle, OSlt, OSle:
			return mkBool(r != 0)
		}
		return mkConst(w, r)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return tt.Bin(OAdd, a.a, mkConst(w, a.b.val+b.val))
			}
		}
	case OSub:
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			return tt.Bin(OAdd, a, mkConst(w, -b.val))
		}
		if a == b {
			return mkConst(w, 0)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch b.val {
			case 0:
				return b
			case 1:
				return a
			}
			if b.val&(b.val-1) == 0 {
				return tt.Bin(OShl, a, mkConst(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	case OUDiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
		if b.op == OConst && b.val != 0 && b.val&(b.val-1) == 0 {
			return tt.Bin(OLShr, a, mkConst(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem:
		if b.op == OConst && b.val != 0 && b.val&(b.val-1) == 0 {
			return tt.Bin(OBAnd, a, mkConst(w, b.val-1))
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt {
				if b.val&mask(a.a.w) == mask(a.a.w) {
					return a
				}
				return tt.ZExt(tt.Bin(OBAnd, a.a, mkConst(a.a.w, b.val)), w)
			}
			if a.op == OBAnd && a.b.op == OConst {
				return tt.Bin(OBAnd, a.a, mkConst(w, a.b.val&b.val))
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a == b {
			return mkConst(w, 0)
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a.op == OConst && a.val == 0 {
			return a
		}
		if b.op == OConst && b.val >= uint64(w) && op != OAShr {
			return mkConst(w, 0)
		}
		if op == OLShr && a.op == OZExt && b.op == OConst && b.val >= uint64(a.a.w) {
			return mkConst(w, 0)
		}
	case OUlt:
		if a == b {
			return falseT
		}
		if b.op == OConst {
			if b.val == 0 {
				return falseT
			}
			if a.op == OZExt {
				if b.val > mask(a.a.w) {
					return trueT
				}
				return tt.Bin(OUlt, a.a, mkConst(a.a.w, b.val))
			}
			if a.op == OIte {
				return tt.distCmp(op, a, b, true)
			}
		}
		if a.op == OConst {
			if a.val == mask(w) {
				return falseT
			}
			if b.op == OZExt {
				if a.val >= mask(b.a.w) {
					return falseT
				}
				return tt.Bin(OUlt, mkConst(b.a.w, a.val), b.a)
			}
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return tt.Bin(OUlt, a.a, b.a)
		}
	case OUle:
		return tt.Not(tt.Bin(OUlt, b, a))
	case OSle:
		return tt.Not(tt.Bin(OSlt, b, a))
	case OSlt:
		if a == b {
			return falseT
		}
		// comparisons of zero-extended (hence non-negative) values
		az := a.op == OZExt && a.a.w < a.w
		bz := b.op == OZExt && b.a.w < b.w
		if az && bz {
			return tt.Bin(OUlt, a, b)
		}
		if az && b.op == OConst {
			if sext(b.val, w) < 0 {
				return falseT
			}
			return tt.Bin(OUlt, a, b)
		}
		if bz && a.op == OConst {
			if sext(a.val, w) < 0 {
				return trueT
			}
			return tt.Bin(OUlt, a, b)
		}
		if b.op == OConst && a.op == OIte {
			return tt.distCmp(op, a, b, true)
		}
		if a.op == OConst && b.op == OIte {
			return tt.distCmp(op, b, a, false)
		}
		if b.op == OConst && b.val == 0 && a.op == OSub && nonNeg(a.a) && nonNeg(a.b) {
			return tt.Bin(OSlt, a.a, a.b)
		}
		if a.op == OConst && a.val == 0 && b.op == OSub && nonNeg(b.a) && nonNeg(b.b) {
			return tt.Bin(OSlt, b.b, b.a)
		}
		if b.op == OConst && a.op == OSExt {
			lo := b.val & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(w) == b.val {
				return tt.Bin(OSlt, a.a, mkConst(a.a.w, lo))
			}
		}
		if a.op == OConst && b.op == OSExt {
			lo := a.val & mask(b.a.w)
			if uint64(sext(lo, b.a.w))&mask(w) == a.val {
				return tt.Bin(OSlt, mkConst(b.a.w, lo), b.a)
			}
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return tt.Bin(OSlt, a.a, b.a)
		}
	}
	rw := w
	switch op {
	case OUlt, OUle, OSlt, OSle:
		rw = 0
	}
	return tt.mk(op, rw, 0, a, b, nil)
}

func (tt *TermTable) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return mkConst(w, a.val)
	}
	if a.op == OZExt {
		return tt.ZExt(a.a, w)
	}
	return tt.mk(OZExt, w, 0, a, nil, nil)
}
func (tt *TermTable) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return mkConst(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OZExt && a.a.w < a.w {
		return tt.ZExt(a.a, w)
	}
	return tt.mk(OSExt, w, 0, a, nil, nil)
}
func (tt *TermTable) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return mkConst(w, a.val)
	case OZExt, OSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tt.Trunc(a.a, w)
		}
		if a.op == OZExt {
			return tt.ZExt(a.a, w)
		}
		return tt.SExt(a.a, w)
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return tt.Ite(a.a, tt.Trunc(a.b, w), tt.Trunc(a.c, w))
		}
	case OAdd, OSub, OBAnd, OBOr, OBXor:
		return tt.Bin(a.op, tt.Trunc(a.a, w), tt.Trunc(a.b, w))
	}
	return tt.mk(OExtract, w, 0, a, nil, nil)
}
func (tt *TermTable) Neg(a *Term) *Term {
	if a.op == OConst {
		return mkConst(a.w, -a.val)
	}
	return tt.mk(ONeg, a.w, 0, a, nil, nil)
}
func (tt *TermTable) BNot(a *Term) *Term {
	if a.op == OConst {
		return mkConst(a.w, ^a.val)
	}
	return tt.mk(OBNot, a.w, 0, a, nil, nil)
}

// Model assigns values to variables (missing = 0).
type Model map[*Term]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m[t]
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - e.eval(t.a)
	case OAnd:
		if e.eval(t.a) == 0 {
			r = 0
		} else {
			r = e.eval(t.b)
		}
	case OOr:
		if e.eval(t.a) == 1 {
			r = 1
		} else {
			r = e.eval(t.b)
		}
	case OEq:
		r = b2u(e.eval(t.a) == e.eval(t.b))
	case OIte:
		if e.eval(t.a) == 1 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OZExt:
		r = e.eval(t.a)
	case OSExt:
		r = uint64(sext(e.eval(t.a), t.a.w)) & mask(t.w)
	case OExtract:
		r = e.eval(t.a) & mask(t.w)
	case ONeg:
		r = -e.eval(t.a) & mask(t.w)
	case OBNot:
		r = ^e.eval(t.a) & mask(t.w)
	default:
		r = evalBin(t.op, t.a.w, e.eval(t.a), e.eval(t.b))
	}
	e.memo[t] = r
	return r
}

func evalTerm(t *Term, m Model) uint64 {
	e := evaluator{m: m, memo: map[*Term]uint64{}}
	return e.eval(t)
}

// byteSet returns, for a Bool term depending on exactly one 8-bit (or narrower)
// variable, the set of values making it true.
func (t *Term) byteSet() *[4]uint64 {
	if t.set != nil {
		return t.set
	}
	var s [4]uint64
	v := t.dep
	switch t.op {
	case OAnd:
		if t.a.dep == v && t.b.dep == v {
			x, y := t.a.byteSet(), t.b.byteSet()
			for i := range s {
				s[i] = x[i] & y[i]
			}
			t.set = &s
			return t.set
		}
	case OOr:
		if t.a.dep == v && t.b.dep == v {
			x, y := t.a.byteSet(), t.b.byteSet()
			for i := range s {
				s[i] = x[i] | y[i]
			}
			t.set = &s
			return t.set
		}
	case ONot:
		x := t.a.byteSet()
		f := fullSet(v.w)
		for i := range s {
			s[i] = f[i] &^ x[i]
		}
		t.set = &s
		return t.set
	}
	m := Model{}
	n := 1 << v.w
	if v.w == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		m[v] = uint64(i)
		if evalTerm(t, m) == 1 {
			s[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	t.set = &s
	return t.set
}

func fullSet(w uint8) [4]uint64 {
	n := 1 << w
	if w == 0 {
		n = 2
	}
	var s [4]uint64
	for i := 0; i < n; i++ {
		s[i>>6] |= 1 << (uint(i) & 63)
	}
	return s
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.val>>8)
	}
	var sb strings.Builder
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d.%d", t.op, t.w)
	}
	sb.WriteString("(" + n)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.String())
		}
	}
	sb.WriteString(")")
	return sb.String()
}
