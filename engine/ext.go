package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type extFn = func(m *Machine, args []Value) Value

var externals map[string]extFn
var pureExt = map[string]bool{"strings.ToLower": true, "strings.ToUpper": true, "strings.EqualFold": true, "unicode.IsSpace": false}

type hashRec struct {
	alg    string
	data   []*Term
	digest []byte
}

func boolV(b bool) Value   { return mkBool(b) }
func intV(i int) Value     { return mkConst(64, uint64(int64(i))) }
func unit() Value          { return Tuple{} }
func nilErr() Value        { return Iface{} }
func ptrTo(v Value) *Value { p := new(Value); *p = v; return p }

func (m *Machine) indexByte(s []*Term, c *Term, from, step int) int {
	for i := from; i >= 0 && i < len(s); i += step {
		if m.branch(m.tt.Eq(s[i], c)) {
			return i
		}
	}
	return -1
}
func (m *Machine) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return falseT
	}
	r := trueT
	for i := range a {
		r = m.tt.And(r, m.tt.Eq(a[i], b[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}
func (m *Machine) indexSub(s, sub []*Term) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.branch(m.bytesEq(s[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}
func (m *Machine) lastIndexSub(s, sub []*Term) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if m.branch(m.bytesEq(s[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}

// bs accepts a string or []byte value.
func bs(v Value) []*Term {
	if s, ok := v.([]Value); ok {
		return sliceToBytes(s)
	}
	return strBytes(v)
}

func (m *Machine) compareBytes(a, b []*Term) *Term {
	x, y := mkStr(a), mkStr(b)
	return m.tt.Ite(m.strEq(x, y), mkConst(64, 0), m.tt.Ite(m.strLess(x, y), mkConst(64, ^uint64(0)), mkConst(64, 1)))
}

func (m *Machine) allASCII(b []*Term) *Term {
	r := trueT
	for _, t := range b {
		r = m.tt.And(r, m.tt.Bin(OUlt, t, mkConst(8, 0x80)))
	}
	return r
}
func (m *Machine) asciiCase(t *Term, lower bool) *Term {
	lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
	if !lower {
		lo, hi, d = 'a', 'z', ^uint64(31)
	}
	is := m.tt.And(m.tt.Bin(OUle, mkConst(8, lo), t), m.tt.Bin(OUle, t, mkConst(8, hi)))
	return m.tt.Ite(is, m.tt.Bin(OAdd, t, mkConst(8, d)), t)
}
func (m *Machine) caseMap(v Value, lower bool) Value {
	if s, ok := v.(string); ok {
		if lower {
			return strings.ToLower(s)
		}
		return strings.ToUpper(s)
	}
	b := strBytes(v)
	for _, t := range b {
		if !m.branch(m.tt.Bin(OUlt, t, mkConst(8, 0x80))) {
			m.unsupported("case mapping of symbolic non-ASCII text")
		}
	}
	r := make([]*Term, len(b))
	for i, t := range b {
		r[i] = m.asciiCase(t, lower)
	}
	return mkStr(r)
}

func regexOf(m *Machine, v Value) *NatRegexp {
	p := v.(*Value)
	if p == nil {
		m.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return (*p).(*NatRegexp)
}

func strSliceV(ss []Value) []Value { return ss }

func (m *Machine) reStrings(v Value, idx []int, asBytes bool) Value {
	if idx == nil {
		return []Value(nil)
	}
	r := make([]Value, len(idx)/2)
	for i := range r {
		var x Value = ""
		if idx[2*i] >= 0 {
			x = strSlice(v, idx[2*i], idx[2*i+1])
		}
		if asBytes {
			if idx[2*i] >= 0 {
				x = bytesToSlice(strBytes(x))
			} else {
				x = []Value(nil)
			}
		}
		r[i] = x
	}
	return r
}

func ints(x []int) Value {
	if x == nil {
		return []Value(nil)
	}
	r := make([]Value, len(x))
	for i, v := range x {
		r[i] = intV(v)
	}
	return r
}

func (m *Machine) newError(text Value) Value {
	fn := m.eng.pkgs["errors"].Func("New")
	return m.callFn(fn, []Value{text}, nil)
}

func (m *Machine) reReplace(re *NatRegexp, src Value, repl func(idx []int) Value) Value {
	var out Value = ""
	last := 0
	for _, mt := range m.reAll(re, src, -1) {
		out = strCat(out, strSlice(src, last, mt[0]))
		out = strCat(out, repl(mt))
		last = mt[1]
	}
	return strCat(out, strSlice(src, last, strLen(src)))
}

func (m *Machine) doHash(alg string, data []*Term) []byte {
	for _, h := range m.hashes {
		if h.alg != alg || len(h.data) != len(data) {
			continue
		}
		if m.branch(m.bytesEq(h.data, data)) {
			return h.digest
		}
	}
	conc := true
	raw := make([]byte, len(data))
	for i, t := range data {
		if t.op != OConst {
			conc = false
		} else {
			raw[i] = byte(t.val)
		}
	}
	if !conc {
		raw = []byte(fmt.Sprintf("symgo-ideal-hash-%d", len(m.hashes)))
	}
	var d []byte
	switch alg {
	case "md5":
		x := md5.Sum(raw)
		d = x[:]
	case "sha1":
		x := sha1.Sum(raw)
		d = x[:]
	case "sha224":
		x := sha256.Sum224(raw)
		d = x[:]
	case "sha256":
		x := sha256.Sum256(raw)
		d = x[:]
	case "sha384":
		x := sha512.Sum384(raw)
		d = x[:]
	case "sha512":
		x := sha512.Sum512(raw)
		d = x[:]
	default:
		m.unsupported("hash %s", alg)
	}
	cp := append([]*Term(nil), data...)
	m.hashes = append(m.hashes, hashRec{alg, cp, d})
	return d
}

func (m *Machine) unwrap(e Iface) []Iface {
	fn := m.eng.lookupMethodByName(e.t, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	r := m.callFn(fn, []Value{e.v}, nil)
	switch x := r.(type) {
	case Iface:
		return []Iface{x}
	case []Value:
		var l []Iface
		for _, y := range x {
			l = append(l, y.(Iface))
		}
		return l
	}
	return nil
}

func (m *Machine) errorsIs(e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && m.sameType(e.t, target.t) {
		if m.branch(m.equal(e, target)) {
			return true
		}
	}
	if e.t == m.eng.runtimeErrorT {
		return false
	}
	if fn := m.eng.lookupMethodByName(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
		if m.branch(m.callFn(fn, []Value{e.v, target}, nil).(*Term)) {
			return true
		}
	}
	for _, u := range m.unwrap(e) {
		if u.t != nil && m.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (m *Machine) errorsAs(e Iface, target Iface) bool {
	pt := target.t.(*types.Pointer).Elem()
	dst := target.v.(*Value)
	if e.t == nil {
		return false
	}
	ok := false
	if it, isI := pt.Underlying().(*types.Interface); isI {
		if e.t != m.eng.runtimeErrorT {
			ok = m.eng.implements(e.t, it)
		}
		if ok {
			storeInto(dst, e)
		}
	} else if m.sameType(e.t, pt) {
		ok = true
		storeInto(dst, e.v)
	}
	if ok {
		return true
	}
	if e.t == m.eng.runtimeErrorT {
		return false
	}
	if fn := m.eng.lookupMethodByName(e.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
		if m.branch(m.callFn(fn, []Value{e.v, target}, nil).(*Term)) {
			return true
		}
	}
	for _, u := range m.unwrap(e) {
		if u.t != nil && m.errorsAs(u, target) {
			return true
		}
	}
	return false
}

func (m *Machine) isZero(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return m.tt.Eq(v, mkConst(v.w, 0))
	case string:
		return mkBool(v == "")
	case *SymStr:
		return mkBool(len(v.b) == 0)
	case []Value:
		return mkBool(v == nil)
	case *Value:
		return mkBool(v == nil)
	case *Map:
		return mkBool(v == nil)
	case *Chan:
		return mkBool(v == nil)
	case *ssa.Function:
		return mkBool(v == nil)
	case *Closure:
		return mkBool(v == nil)
	case Iface:
		return mkBool(v.t == nil)
	case Struct:
		r := trueT
		for _, x := range v {
			r = m.tt.And(r, m.isZero(x))
		}
		return r
	case Array:
		r := trueT
		for _, x := range v {
			r = m.tt.And(r, m.isZero(x))
		}
		return r
	}
	m.unsupported(fmt.Sprintf("zero test of %T", v))
	return nil
}

func (m *Machine) deepEq(a, b Value, depth int) *Term {
	if depth > 50 {
		m.unsupported("deep recursion in DeepEqual")
	}
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !m.sameType(x.t, y.t) {
			return falseT
		}
		return m.deepEq(x.v, y.v, depth+1)
	case Struct:
		r := trueT
		for i := range x {
			r = m.tt.And(r, m.deepEq(x[i], b.(Struct)[i], depth+1))
		}
		return r
	case Array:
		r := trueT
		for i := range x {
			r = m.tt.And(r, m.deepEq(x[i], b.(Array)[i], depth+1))
		}
		return r
	case []Value:
		y := b.([]Value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return falseT
		}
		r := trueT
		for i := range x {
			r = m.tt.And(r, m.deepEq(x[i], y[i], depth+1))
		}
		return r
	case *Value:
		y := b.(*Value)
		if x == nil || y == nil || x == y {
			return mkBool(x == y)
		}
		return m.deepEq(*x, *y, depth+1)
	case *Map:
		y := b.(*Map)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		if x.n != y.n {
			return falseT
		}
		r := trueT
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := m.mapFind(y, e.k)
			if f == nil {
				return falseT
			}
			r = m.tt.And(r, m.deepEq(*e.v, *f.v, depth+1))
		}
		return r
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return mkBool(ok && x == nil && y == nil)
	case *Closure, *NatFunc:
		return falseT
	}
	return m.equal(a, b)
}

func init() {
	noop := func(m *Machine, a []Value) Value { return Tuple{} }
	externals = map[string]extFn{
		"internal/bytealg.IndexByte":       func(m *Machine, a []Value) Value { return intV(m.indexByte(bs(a[0]), a[1].(*Term), 0, 1)) },
		"internal/bytealg.IndexByteString": func(m *Machine, a []Value) Value { return intV(m.indexByte(bs(a[0]), a[1].(*Term), 0, 1)) },
		"strings.IndexByte":                func(m *Machine, a []Value) Value { return intV(m.indexByte(bs(a[0]), a[1].(*Term), 0, 1)) },
		"strings.LastIndexByte": func(m *Machine, a []Value) Value {
			s := bs(a[0])
			return intV(m.indexByte(s, a[1].(*Term), len(s)-1, -1))
		},
		"bytes.LastIndexByte": func(m *Machine, a []Value) Value {
			s := bs(a[0])
			return intV(m.indexByte(s, a[1].(*Term), len(s)-1, -1))
		},
		"internal/bytealg.Equal":       func(m *Machine, a []Value) Value { return m.bytesEq(bs(a[0]), bs(a[1])) },
		"bytes.Equal":                  func(m *Machine, a []Value) Value { return m.bytesEq(bs(a[0]), bs(a[1])) },
		"internal/bytealg.Compare":     func(m *Machine, a []Value) Value { return m.compareBytes(bs(a[0]), bs(a[1])) },
		"bytes.Compare":                func(m *Machine, a []Value) Value { return m.compareBytes(bs(a[0]), bs(a[1])) },
		"strings.Compare":              func(m *Machine, a []Value) Value { return m.compareBytes(bs(a[0]), bs(a[1])) },
		"strings.Index":                func(m *Machine, a []Value) Value { return intV(m.indexSub(bs(a[0]), bs(a[1]))) },
		"strings.LastIndex":            func(m *Machine, a []Value) Value { return intV(m.lastIndexSub(bs(a[0]), bs(a[1]))) },
		"bytes.Index":                  func(m *Machine, a []Value) Value { return intV(m.indexSub(bs(a[0]), bs(a[1]))) },
		"bytes.LastIndex":              func(m *Machine, a []Value) Value { return intV(m.lastIndexSub(bs(a[0]), bs(a[1]))) },
		"internal/bytealg.IndexString": func(m *Machine, a []Value) Value { return intV(m.indexSub(bs(a[0]), bs(a[1]))) },
		"internal/bytealg.Index":       func(m *Machine, a []Value) Value { return intV(m.indexSub(bs(a[0]), bs(a[1]))) },
		"internal/bytealg.Count":       extCount,
		"internal/bytealg.CountString": extCount,
		"strings.ToLower":              func(m *Machine, a []Value) Value { return m.caseMap(a[0], true) },
		"strings.ToUpper":              func(m *Machine, a []Value) Value { return m.caseMap(a[0], false) },
		"strings.EqualFold": func(m *Machine, a []Value) Value {
			x, xok := a[0].(string)
			y, yok := a[1].(string)
			if xok && yok {
				return mkBool(strings.EqualFold(x, y))
			}
			p, q := strBytes(a[0]), strBytes(a[1])
			for _, t := range append(append([]*Term(nil), p...), q...) {
				if !m.branch(m.tt.Bin(OUlt, t, mkConst(8, 0x80))) {
					m.unsupported("EqualFold on symbolic non-ASCII text")
				}
			}
			if len(p) != len(q) {
				return falseT
			}
			r := trueT
			for i := range p {
				r = m.tt.And(r, m.tt.Eq(m.asciiCase(p[i], true), m.asciiCase(q[i], true)))
			}
			return r
		},
		"(*strings.Builder).copyCheck": noop,
		"strings.Clone":                func(m *Machine, a []Value) Value { return a[0] },

		"unicode/utf8.DecodeRuneInString": extDecodeRune,
		"unicode/utf8.DecodeRune":         extDecodeRune,

		"(*sync.WaitGroup).Add": noop, "(*sync.WaitGroup).Done": noop, "(*sync.WaitGroup).Wait": noop,
		"(*sync.Pool).Put": noop,
		"(*sync.Pool).Get": func(m *Machine, a []Value) Value {
			s := (*a[0].(*Value)).(Struct)
			f := s[len(s)-1]
			switch x := f.(type) {
			case *ssa.Function:
				if x == nil {
					return Iface{}
				}
			}
			return m.call(f, nil)
		},
		"runtime.GC": noop, "runtime.KeepAlive": noop, "runtime.SetFinalizer": noop, "runtime.Gosched": noop,
		"runtime.Callers": func(m *Machine, a []Value) Value { return intV(0) },

		"errors.Is": func(m *Machine, a []Value) Value { return mkBool(m.errorsIs(a[0].(Iface), a[1].(Iface))) },
		"errors.As": func(m *Machine, a []Value) Value { return mkBool(m.errorsAs(a[0].(Iface), a[1].(Iface))) },
		"reflect.ValueOf": func(m *Machine, a []Value) Value {
			return Struct{(*Value)(nil), a[0], mkConst(64, 0)} // the interface itself stands in for the pointer
		},
		"(reflect.Value).IsZero": func(m *Machine, a []Value) Value {
			i, ok := a[0].(Struct)[1].(Iface)
			if !ok || i.t == nil {
				m.unsupported("reflect.Value.IsZero of a value not made by reflect.ValueOf")
			}
			return m.isZero(i.v)
		},
		"reflect.DeepEqual": func(m *Machine, a []Value) Value { return m.deepEq(a[0], a[1], 0) },

		"fmt.Sprintf": func(m *Machine, a []Value) Value { return mkStr(m.sprintf(concFormat(m, a[0]), a[1].([]Value))) },
		"fmt.Sprint": func(m *Machine, a []Value) Value {
			o := &outbuf{}
			for i, x := range a[0].([]Value) {
				it := x.(Iface)
				if i > 0 {
					s1 := it.t != nil && rkind(it.t) == reflect.String
					pt := a[0].([]Value)[i-1].(Iface).t
					s2 := pt != nil && rkind(pt) == reflect.String
					if !s1 && !s2 {
						o.str(" ")
					}
				}
				m.fmtArg(o, it, 'v', fmtFlags{}, 0)
			}
			return mkStr(o.b)
		},
		"fmt.Sprintln": func(m *Machine, a []Value) Value {
			o := &outbuf{}
			for i, x := range a[0].([]Value) {
				if i > 0 {
					o.str(" ")
				}
				m.fmtArg(o, x.(Iface), 'v', fmtFlags{}, 0)
			}
			o.str("\n")
			return mkStr(o.b)
		},
		"fmt.Printf":  func(m *Machine, a []Value) Value { return Tuple{intV(0), nilErr()} },
		"fmt.Println": func(m *Machine, a []Value) Value { return Tuple{intV(0), nilErr()} },
		"fmt.Print":   func(m *Machine, a []Value) Value { return Tuple{intV(0), nilErr()} },

		"regexp.MustCompile": func(m *Machine, a []Value) Value {
			re, err := newNatRegexp(concStr(m, a[0]))
			if err != nil {
				panic(targetPanic{Iface{types.Typ[types.String], "regexp: Compile: " + err.Error()}})
			}
			return ptrTo(re)
		},
		"regexp.Compile": func(m *Machine, a []Value) Value {
			re, err := newNatRegexp(concStr(m, a[0]))
			if err != nil {
				return Tuple{(*Value)(nil), m.newError(err.Error())}
			}
			return Tuple{ptrTo(re), nilErr()}
		},
		"regexp.MatchString": func(m *Machine, a []Value) Value {
			re, err := newNatRegexp(concStr(m, a[0]))
			if err != nil {
				return Tuple{falseT, m.newError(err.Error())}
			}
			return Tuple{mkBool(m.reFind(re, a[1], 0) != nil), nilErr()}
		},
		"(*regexp.Regexp).String":      func(m *Machine, a []Value) Value { return regexOf(m, a[0]).src },
		"(*regexp.Regexp).MatchString": func(m *Machine, a []Value) Value { return mkBool(m.reFind(regexOf(m, a[0]), a[1], 0) != nil) },
		"(*regexp.Regexp).Match": func(m *Machine, a []Value) Value {
			return mkBool(m.reFind(regexOf(m, a[0]), mkStr(bs(a[1])), 0) != nil)
		},
		"(*regexp.Regexp).FindStringSubmatch": func(m *Machine, a []Value) Value {
			return m.reStrings(a[1], m.reFind(regexOf(m, a[0]), a[1], 0), false)
		},
		"(*regexp.Regexp).FindSubmatch": func(m *Machine, a []Value) Value {
			s := mkStr(bs(a[1]))
			return m.reStrings(s, m.reFind(regexOf(m, a[0]), s, 0), true)
		},
		"(*regexp.Regexp).FindStringSubmatchIndex": func(m *Machine, a []Value) Value {
			return ints(m.reFind(regexOf(m, a[0]), a[1], 0))
		},
		"(*regexp.Regexp).FindStringIndex": func(m *Machine, a []Value) Value {
			x := m.reFind(regexOf(m, a[0]), a[1], 0)
			if x == nil {
				return ints(nil)
			}
			return ints(x[:2])
		},
		"(*regexp.Regexp).FindIndex": func(m *Machine, a []Value) Value {
			x := m.reFind(regexOf(m, a[0]), mkStr(bs(a[1])), 0)
			if x == nil {
				return ints(nil)
			}
			return ints(x[:2])
		},
		"(*regexp.Regexp).FindString": func(m *Machine, a []Value) Value {
			x := m.reFind(regexOf(m, a[0]), a[1], 0)
			if x == nil {
				return ""
			}
			return strSlice(a[1], x[0], x[1])
		},
		"(*regexp.Regexp).FindAllString": func(m *Machine, a []Value) Value {
			var r []Value
			for _, x := range m.reAll(regexOf(m, a[0]), a[1], m.concInt(a[2])) {
				r = append(r, strSlice(a[1], x[0], x[1]))
			}
			return r
		},
		"(*regexp.Regexp).FindAllStringSubmatch": func(m *Machine, a []Value) Value {
			var r []Value
			for _, x := range m.reAll(regexOf(m, a[0]), a[1], m.concInt(a[2])) {
				r = append(r, m.reStrings(a[1], x, false))
			}
			return r
		},
		"(*regexp.Regexp).FindAllStringIndex": func(m *Machine, a []Value) Value {
			var r []Value
			for _, x := range m.reAll(regexOf(m, a[0]), a[1], m.concInt(a[2])) {
				r = append(r, ints(x[:2]))
			}
			return r
		},
		"(*regexp.Regexp).ReplaceAllString": func(m *Machine, a []Value) Value {
			re := regexOf(m, a[0])
			tmpl := concStr(m, a[2])
			return m.reReplace(re, a[1], func(mt []int) Value { return m.reExpand(re, tmpl, a[1], mt) })
		},
		"(*regexp.Regexp).ReplaceAllLiteralString": func(m *Machine, a []Value) Value {
			return m.reReplace(regexOf(m, a[0]), a[1], func(mt []int) Value { return a[2] })
		},
		"(*regexp.Regexp).ReplaceAllStringFunc": func(m *Machine, a []Value) Value {
			return m.reReplace(regexOf(m, a[0]), a[1], func(mt []int) Value { return m.call(a[2], []Value{strSlice(a[1], mt[0], mt[1])}) })
		},
		"(*regexp.Regexp).ReplaceAll": func(m *Machine, a []Value) Value {
			re := regexOf(m, a[0])
			s := mkStr(bs(a[1]))
			tmpl := concStr(m, mkStr(bs(a[2])))
			return bytesToSlice(strBytes(m.reReplace(re, s, func(mt []int) Value { return m.reExpand(re, tmpl, s, mt) })))
		},
		"(*regexp.Regexp).Split": func(m *Machine, a []Value) Value {
			n := m.concInt(a[2])
			if n == 0 {
				return []Value(nil)
			}
			re := regexOf(m, a[0])
			s := a[1]
			if len(re.src) > 0 && strLen(s) == 0 {
				return []Value{""}
			}
			r := []Value{}
			beg, end := 0, 0
			for _, mt := range m.reAll(re, s, n) {
				if n > 0 && len(r) == n-1 {
					break
				}
				end = mt[0]
				if mt[1] != 0 {
					r = append(r, strSlice(s, beg, end))
				}
				beg = mt[1]
			}
			if end != strLen(s) {
				r = append(r, strSlice(s, beg, strLen(s)))
			}
			return r
		},
		"(*regexp.Regexp).SubexpNames": func(m *Machine, a []Value) Value {
			var r []Value
			for _, n := range regexOf(m, a[0]).re.SubexpNames() {
				r = append(r, n)
			}
			return r
		},
		"(*regexp.Regexp).SubexpIndex": func(m *Machine, a []Value) Value { return intV(regexOf(m, a[0]).re.SubexpIndex(concStr(m, a[1]))) },
		"(*regexp.Regexp).NumSubexp":   func(m *Machine, a []Value) Value { return intV(regexOf(m, a[0]).re.NumSubexp()) },

		"sort.Slice":       extSortSlice,
		"sort.SliceStable": extSortSlice,
		"sort.SliceIsSorted": func(m *Machine, a []Value) Value {
			s := a[0].(Iface).v.([]Value)
			for i := len(s) - 1; i > 0; i-- {
				if m.branch(m.call(a[1], []Value{intV(i), intV(i - 1)}).(*Term)) {
					return falseT
				}
			}
			return trueT
		},
		"context.WithValue": func(m *Machine, a []Value) Value {
			t := m.eng.pkgs["context"].Type("valueCtx").Type()
			return Iface{types.NewPointer(t), ptrTo(Struct{a[0], a[1], a[2]})}
		},
		"time.now": func(m *Machine, a []Value) Value {
			return Tuple{mkConst(64, 1700000000), mkConst(32, 12345), mkConst(64, 1000000)}
		},
		"time.runtimeNano": func(m *Machine, a []Value) Value { return mkConst(64, 1000000) },
		"math.Float64bits": func(m *Machine, a []Value) Value { return mkConst(64, f64bits(a[0].(float64))) },
		"math.Float64frombits": func(m *Machine, a []Value) Value {
			t := a[0].(*Term)
			if t.op != OConst {
				m.unsupported("symbolic float bits")
			}
			return f64frombits(t.val)
		},
		"math.Float32bits": func(m *Machine, a []Value) Value { return mkConst(32, uint64(f32bits(a[0].(float64)))) },
		"strconv.Itoa": func(m *Machine, a []Value) Value {
			var o outbuf
			m.fmtInt(&o, a[0].(*Term), true, 10, false)
			return mkStr(o.b)
		},
		"strconv.FormatInt": func(m *Machine, a []Value) Value {
			var o outbuf
			m.fmtInt(&o, a[0].(*Term), true, uint64(m.concInt(a[1])), false)
			return mkStr(o.b)
		},
		"strconv.FormatUint": func(m *Machine, a []Value) Value {
			var o outbuf
			m.fmtInt(&o, a[0].(*Term), false, uint64(m.concInt(a[1])), false)
			return mkStr(o.b)
		},
		"runtime/debug.Stack":     func(m *Machine, a []Value) Value { return []Value(nil) },
		"internal/abi.FuncPCABI0": func(m *Machine, a []Value) Value { return mkConst(64, 0) },
	}
	for _, w := range []struct {
		n string
		b uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		externals["sync/atomic.Load"+w.n] = func(m *Machine, a []Value) Value { return m.load(a[0]) }
		externals["sync/atomic.Store"+w.n] = func(m *Machine, a []Value) Value { storeInto(a[0].(*Value), a[1]); return Tuple{} }
		externals["sync/atomic.Swap"+w.n] = func(m *Machine, a []Value) Value {
			o := m.load(a[0])
			storeInto(a[0].(*Value), a[1])
			return o
		}
		externals["sync/atomic.CompareAndSwap"+w.n] = func(m *Machine, a []Value) Value {
			if m.branch(m.equal(m.load(a[0]), a[1])) {
				storeInto(a[0].(*Value), a[2])
				return trueT
			}
			return falseT
		}
		externals["sync/atomic.Add"+w.n] = func(m *Machine, a []Value) Value {
			p := a[0].(*Value)
			*p = m.tt.Bin(OAdd, (*p).(*Term), a[1].(*Term))
			return *p
		}
	}
	externals["(*sync/atomic.Value).Load"] = func(m *Machine, a []Value) Value { return (*a[0].(*Value)).(Struct)[0] }
	externals["(*sync/atomic.Value).Store"] = func(m *Machine, a []Value) Value { (*a[0].(*Value)).(Struct)[0] = a[1]; return Tuple{} }
}

func (m *Machine) reExpand(re *NatRegexp, tmpl string, src Value, mt []int) Value {
	if !strings.Contains(tmpl, "$") {
		return tmpl
	}
	var out Value = ""
	for tmpl != "" {
		i := strings.IndexByte(tmpl, '$')
		if i < 0 {
			break
		}
		out = strCat(out, tmpl[:i])
		tmpl = tmpl[i:]
		if strings.HasPrefix(tmpl, "$$") {
			out = strCat(out, "$")
			tmpl = tmpl[2:]
			continue
		}
		name := ""
		rest := tmpl[1:]
		if strings.HasPrefix(rest, "{") {
			j := strings.IndexByte(rest, '}')
			if j < 0 {
				m.unsupported("regexp template %q", tmpl)
			}
			name = rest[1:j]
			rest = rest[j+1:]
		} else {
			j := 0
			for j < len(rest) && (rest[j] == '_' || rest[j] >= '0' && rest[j] <= '9' || rest[j] >= 'a' && rest[j] <= 'z' || rest[j] >= 'A' && rest[j] <= 'Z') {
				j++
			}
			name = rest[:j]
			rest = rest[j:]
		}
		tmpl = rest
		n := -1
		if name != "" && name[0] >= '0' && name[0] <= '9' {
			fmt.Sscanf(name, "%d", &n)
		} else {
			n = re.re.SubexpIndex(name)
		}
		if n >= 0 && 2*n+1 < len(mt) && mt[2*n] >= 0 {
			out = strCat(out, strSlice(src, mt[2*n], mt[2*n+1]))
		}
	}
	return strCat(out, tmpl)
}

func concFormat(m *Machine, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	m.unsupported("symbolic format string")
	return ""
}

func extCount(m *Machine, a []Value) Value {
	n := mkConst(64, 0)
	for _, t := range bs(a[0]) {
		n = m.tt.Bin(OAdd, n, m.tt.Ite(m.tt.Eq(t, a[1].(*Term)), mkConst(64, 1), mkConst(64, 0)))
	}
	return intV(int(m.concretize(n)))
}

func extDecodeRune(m *Machine, a []Value) Value {
	b := bs(a[0])
	if len(b) == 0 {
		return Tuple{mkConst(32, 0xFFFD), intV(0)}
	}
	r, n := m.decodeRune(b)
	return Tuple{r, intV(n)}
}

// extSortSlice: insertion sort, which is what the real package uses up to 12
// elements (and SliceStable up to 20).
func extSortSlice(m *Machine, a []Value) Value {
	i0, ok := a[0].(Iface)
	if !ok || i0.t == nil {
		m.runtimePanic("sort.Slice of nil")
	}
	s := i0.v.([]Value)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !m.branch(m.call(a[1], []Value{intV(j), intV(j - 1)}).(*Term)) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			storeInto(&s[j], y)
			storeInto(&s[j-1], x)
		}
	}
	return Tuple{}
}
