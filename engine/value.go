package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value representation:
//
//	*Term          bool and all integer types
//	float64        floating point (concrete only)
//	complex128
//	string         concrete string
//	*SymStr        string with at least one symbolic byte
//	*Value         pointer (unsafe.Pointer too)
//	Struct, Array  aggregates (copied on load/store)
//	[]Value        slice
//	*Map, *Chan
//	Iface          interface value
//	*ssa.Function, *Closure, *ssa.Builtin, *NatFunc   functions
//	Tuple
//	native Go objects (e.g. *NatRegexp) behind a *Value
type Value interface{}

type SymStr struct{ b []*Term }
type Struct []Value
type Array []Value
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type NatFunc struct {
	name string
	f    func(m *Machine, args []Value) Value
}
type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

type bad struct{}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return mkConst(w, 0)
		}
		switch t.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		if _, ok := t.Elem().Underlying().(*types.Basic); ok && len(a) > 0 {
			z := zero(t.Elem())
			for i := range a {
				a[i] = z
			}
			return a
		}
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return []Value(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic(pathEnd{kind: endUnsupported, msg: "zero of type param"})
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	if w, _, ok := intInfo(t); ok {
		if w == 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkConst(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return mkConst(w, u)
	}
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.String, types.UntypedString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case types.Float32:
		return float64(float32(c.Float64()))
	case types.Float64, types.UntypedFloat:
		return c.Float64()
	case types.Complex64, types.Complex128:
		return c.Complex128()
	}
	panic(fmt.Sprintf("constVal %v", c))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

// storeInto writes v at p, keeping interior addresses of aggregates stable.
func storeInto(p *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(nv) {
			for i := range nv {
				storeInto(&old[i], nv[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				storeInto(&old[i], nv[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = byteConsts[v[i]]
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}
func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}
func mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OConst {
			return &SymStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return string(r)
}
func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi:hi])
	}
	panic("strSlice")
}
func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	} else if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkStr(r)
}
func bytesToSlice(b []*Term) []Value {
	r := make([]Value, len(b))
	for i, t := range b {
		r[i] = t
	}
	return r
}
func sliceToBytes(s []Value) []*Term {
	r := make([]*Term, len(s))
	for i, x := range s {
		r[i] = x.(*Term)
	}
	return r
}

// strEq returns the equality of two strings as one term.
func (m *Machine) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return mkBool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return falseT
	}
	x, y := strBytes(a), strBytes(b)
	r := trueT
	for i := range x {
		r = m.tt.And(r, m.tt.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLess: a < b
func (m *Machine) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return mkBool(x < y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := mkBool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.tt.Ite(m.tt.Eq(x[i], y[i]), r, m.tt.Bin(OUlt, x[i], y[i]))
	}
	return r
}

func (m *Machine) strCmp(op string, a, b Value) *Term {
	switch op {
	case "<":
		return m.strLess(a, b)
	case ">":
		return m.strLess(b, a)
	case "<=":
		return m.tt.Not(m.strLess(b, a))
	case ">=":
		return m.tt.Not(m.strLess(a, b))
	}
	panic("strCmp")
}

// equal returns a==b as a term. t is the static type.
func (m *Machine) equal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return m.tt.Eq(x, b.(*Term))
	case string, *SymStr:
		return m.strEq(a, b)
	case float64:
		return mkBool(x == b.(float64))
	case complex128:
		return mkBool(x == b.(complex128))
	case *Value:
		return mkBool(x == b.(*Value))
	case *Map:
		return mkBool(x == b.(*Map))
	case *Chan:
		return mkBool(x == b.(*Chan))
	case Struct:
		y := b.(Struct)
		r := trueT
		for i := range x {
			r = m.tt.And(r, m.equal(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := trueT
		for i := range x {
			r = m.tt.And(r, m.equal(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !m.sameType(x.t, y.t) {
			return falseT
		}
		switch x.v.(type) {
		case []Value, *ssa.Function, *Closure, *NatFunc:
			m.runtimePanic("comparing uncomparable type " + x.t.String())
		case *Map:
			m.runtimePanic("comparing uncomparable type " + x.t.String())
		}
		return m.equal(x.v, y.v)
	case []Value:
		y, ok := b.([]Value)
		if ok && (x == nil || y == nil) {
			return mkBool(x == nil && y == nil)
		}
	case *ssa.Function:
		if y, ok := b.(*ssa.Function); ok {
			return mkBool(x == y)
		}
		return falseT
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return mkBool(x == y)
		}
		return falseT
	case *NatFunc:
		if y, ok := b.(*NatFunc); ok {
			return mkBool(x == y)
		}
		return falseT
	case *ssa.Builtin:
		return falseT
	default:
		if fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b) {
			return mkBool(a == b)
		}
	}
	panic(fmt.Sprintf("equal: %T %T", a, b))
}

// ---- maps ----

type mapEnt struct {
	k    Value
	v    *Value
	dead bool
}
type Map struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	nsym int
	n    int
}

func newMap() *Map { return &Map{idx: map[string]*mapEnt{}} }

func keyStr(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if x.op != OConst {
			return false
		}
		fmt.Fprintf(sb, "i%d,", x.val)
	case string:
		fmt.Fprintf(sb, "s%d:%s", len(x), x)
	case *SymStr:
		return false
	case float64:
		fmt.Fprintf(sb, "f%x,", math.Float64bits(x))
	case *Value, *Map, *Chan:
		fmt.Fprintf(sb, "p%p,", x)
	case Struct:
		sb.WriteString("{")
		for _, e := range x {
			if !keyStr(e, sb) {
				return false
			}
		}
		sb.WriteString("}")
	case Array:
		sb.WriteString("[")
		for _, e := range x {
			if !keyStr(e, sb) {
				return false
			}
		}
		sb.WriteString("]")
	case Iface:
		if x.t == nil {
			sb.WriteString("nil,")
		} else {
			sb.WriteString("I" + x.t.String() + "|")
			return keyStr(x.v, sb)
		}
	default:
		fmt.Fprintf(sb, "p%p,", x)
	}
	return true
}

func mapKey(v Value) (string, bool) {
	if s, ok := v.(string); ok {
		return s, true
	}
	var sb strings.Builder
	ok := keyStr(v, &sb)
	return "\x00" + sb.String(), ok
}

func (m *Machine) mapFind(mp *Map, k Value) *mapEnt {
	if mp == nil {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil {
		switch i.v.(type) {
		case []Value, *Map, *Closure, *ssa.Function:
			m.runtimePanic("hash of unhashable type " + i.t.String())
		}
	}
	ks, conc := mapKey(k)
	if conc {
		if e := mp.idx[ks]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		eq := m.equal(e.k, k)
		if eq.isFalse() {
			continue
		}
		if m.branch(eq) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if e := m.mapFind(mp, k); e != nil {
		storeInto(e.v, v)
		return
	}
	nv := new(Value)
	*nv = copyVal(v)
	e := &mapEnt{k: copyVal(k), v: nv}
	mp.ents = append(mp.ents, e)
	mp.n++
	if ks, conc := mapKey(k); conc {
		mp.idx[ks] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.dead = true
	mp.n--
	if ks, conc := mapKey(e.k); conc {
		delete(mp.idx, ks)
	} else {
		mp.nsym--
	}
	if len(mp.ents) > 32 && mp.n < len(mp.ents)/4 {
		// iterators hold entry pointers, so compaction is safe
		var l []*mapEnt
		for _, x := range mp.ents {
			if !x.dead {
				l = append(l, x)
			}
		}
		mp.ents = l
	}
}

type mapIter struct {
	mp      *Map
	visited map[*mapEnt]bool
	orig    map[*mapEnt]bool
	mode    int
	rev     bool
	decided bool
}

func (it *mapIter) next(m *Machine) Value {
	if it.mp == nil {
		return Tuple{falseT, bad{}, bad{}}
	}
	var o, a []*mapEnt
	for _, e := range it.mp.ents {
		if e.dead || it.visited[e] {
			continue
		}
		if it.orig[e] {
			o = append(o, e)
		} else {
			a = append(a, e)
		}
	}
	var e *mapEnt
	switch it.mode {
	case 0:
		l := append(o, a...)
		if len(l) > 0 {
			e = l[0]
		}
	case 4: // reverse
		if len(o) > 0 {
			e = o[len(o)-1]
		}
	case 1: // forward or reverse
		if !it.decided {
			it.decided = true
			if len(o) > 1 {
				it.rev = m.choose(2) == 1
			}
		}
		if it.rev {
			// entries added during the iteration are not visited in this order
			if len(o) > 0 {
				e = o[len(o)-1]
			}
		} else {
			l := append(o, a...)
			if len(l) > 0 {
				e = l[0]
			}
		}
	default:
		l := append(o, a...)
		n := len(l)
		if n > 0 {
			if len(o) == 0 {
				i := m.choose(n + 1)
				if i < n {
					e = l[i]
				}
			} else {
				e = l[m.choose(n)]
			}
		}
	}
	if e == nil {
		return Tuple{falseT, bad{}, bad{}}
	}
	it.visited[e] = true
	return Tuple{trueT, copyVal(e.k), copyVal(*e.v)}
}
