package main

// Model of package fmt's formatting, working on symbolic strings.

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type outbuf struct{ b []*Term }

func (o *outbuf) str(s string) {
	for i := 0; i < len(s); i++ {
		o.b = append(o.b, byteConsts[s[i]])
	}
}
func (o *outbuf) val(v Value) { o.b = append(o.b, strBytes(v)...) }

func (m *Machine) callMethod(i Iface, name string) (Value, bool) {
	if i.t == m.eng.runtimeErrorT {
		if name == "Error" {
			return i.v, true
		}
		return nil, false
	}
	switch i.t.Underlying().(type) {
	case *types.Interface:
		return nil, false
	}
	fn := m.eng.lookupMethodByName(i.t, name)
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return nil, false
	}
	if p, ok := i.v.(*Value); ok && p == nil {
		return "<nil>", true
	}
	return m.callFn(fn, []Value{i.v}, nil), true
}

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (m *Machine) sprintf(format string, args []Value) []*Term {
	o := &outbuf{}
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			o.b = append(o.b, byteConsts[format[i]])
			i++
			continue
		}
		i++
		var fl fmtFlags
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				fl.plus = true
			case '-':
				fl.minus = true
				fl.zero = false
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			case '0':
				fl.zero = !fl.minus
			default:
				break flags
			}
			i++
		}
		if i < len(format) && format[i] == '*' {
			fl.wid = m.concInt(args[ai].(Iface).v)
			fl.hasWid = true
			if fl.wid < 0 {
				fl.minus = true
				fl.wid = -fl.wid
			}
			ai++
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			fl.wid = fl.wid*10 + int(format[i]-'0')
			fl.hasWid = true
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			fl.hasPrec = true
			if i < len(format) && format[i] == '*' {
				fl.prec = m.concInt(args[ai].(Iface).v)
				ai++
				i++
			}
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				fl.prec = fl.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			o.str("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			o.str("%")
			continue
		}
		if ai >= len(args) {
			o.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		sub := &outbuf{}
		m.fmtArg(sub, a, verb, fl, 0)
		if fl.hasWid && len(sub.b) < fl.wid {
			pad := fl.wid - len(sub.b)
			if fl.minus {
				sub.str(strings.Repeat(" ", pad))
			} else if fl.zero && isNumVerb(verb) {
				// sign-aware zero padding
				if len(sub.b) > 0 && sub.b[0].isConst() && (sub.b[0].val == '-' || sub.b[0].val == '+') {
					sub.b = append(append([]*Term{sub.b[0]}, strBytes(strings.Repeat("0", pad))...), sub.b[1:]...)
				} else {
					sub.b = append(strBytes(strings.Repeat("0", pad)), sub.b...)
				}
			} else {
				sub.b = append(strBytes(strings.Repeat(" ", pad)), sub.b...)
			}
		}
		o.b = append(o.b, sub.b...)
	}
	if ai < len(args) {
		o.str("%!(EXTRA)")
	}
	return o.b
}

func isNumVerb(v byte) bool { return strings.IndexByte("dxXobefgv", v) >= 0 }

func (m *Machine) quoteInto(o *outbuf, v Value) {
	if s, ok := v.(string); ok {
		o.str(strconv.Quote(s))
		return
	}
	// symbolic: escaping is not modelled beyond quotes (diagnostics only)
	o.str("\"")
	o.val(v)
	o.str("\"")
}

// horner recognises t as the value of a string of decimal digits and returns
// the digit characters (most significant first), or nil.
func (m *Machine) horner(t *Term, max int) []*Term {
	digit := func(t *Term) *Term {
		if t.op == OConst && t.val < 10 {
			return mkConst(8, t.val+'0')
		}
		if t.op == OZExt && t.a.w == 8 && t.a.dep != nil && t.a.dep != multiDep && t.a.dep.w <= 8 {
			le9 := m.tt.Bin(OUlt, t.a, mkConst(8, 10))
			if le9.isTrue() {
				return m.tt.Bin(OAdd, t.a, mkConst(8, '0'))
			}
			if le9.isFalse() {
				return nil
			}
			s := le9.byteSet()
			d := m.domain(t.a.dep)
			for i := range d {
				if d[i]&^s[i] != 0 {
					return nil
				}
			}
			return m.tt.Bin(OAdd, t.a, mkConst(8, '0'))
		}
		return nil
	}
	if max == 0 {
		return nil
	}
	if d := digit(t); d != nil {
		return []*Term{d}
	}
	if t.op == OAdd && t.a.op == OMul && t.a.b.op == OConst && t.a.b.val == 10 {
		if d := digit(t.b); d != nil {
			if h := m.horner(t.a.a, max-1); h != nil {
				return append(h[:len(h):len(h)], d)
			}
		}
	}
	return nil
}

// fmtInt renders an integer term in the given base; symbolic values fork on digit count.
func (m *Machine) fmtInt(o *outbuf, t *Term, signed bool, base uint64, upper bool) {
	if t.op == OConst {
		var s string
		if signed {
			s = strconv.FormatInt(sext(t.val, t.w), int(base))
		} else {
			s = strconv.FormatUint(t.val, int(base))
		}
		if upper {
			s = strings.ToUpper(s)
		}
		o.str(s)
		return
	}
	tt := m.tt
	if base == 10 {
		max := 0
		switch t.w {
		case 64:
			max = 18
		case 32:
			max = 9
		}
		if ds := m.horner(t, max); ds != nil {
			for len(ds) > 1 && m.branch(tt.Eq(ds[0], mkConst(8, '0'))) {
				ds = ds[1:]
			}
			o.b = append(o.b, ds...)
			return
		}
	}
	if signed && m.branch(tt.Bin(OSlt, t, mkConst(t.w, 0))) {
		o.str("-")
		t = tt.Neg(t)
	}
	pow := base
	n := 1
	max := mask(t.w)
	for pow <= max {
		if m.branch(tt.Bin(OUlt, t, mkConst(t.w, pow))) {
			break
		}
		n++
		if pow > max/base {
			break
		}
		pow *= base
	}
	ds := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		d := tt.Trunc(tt.Bin(OURem, t, mkConst(t.w, base)), 8)
		var c *Term
		if base <= 10 {
			c = tt.Bin(OAdd, d, mkConst(8, '0'))
		} else {
			a := uint64('a' - 10)
			if upper {
				a = 'A' - 10
			}
			c = tt.Ite(tt.Bin(OUlt, d, mkConst(8, 10)), tt.Bin(OAdd, d, mkConst(8, '0')), tt.Bin(OAdd, d, mkConst(8, a)))
		}
		ds[i] = c
		t = tt.Bin(OUDiv, t, mkConst(t.w, base))
	}
	o.b = append(o.b, ds...)
}

func (m *Machine) fmtArg(o *outbuf, a Iface, verb byte, fl fmtFlags, depth int) {
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				o.str("%!s(<nil>)")
			} else {
				o.str("<nil>")
			}
		} else {
			o.str("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if verb == 'T' {
		o.str(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
		return
	}
	if verb == 'p' {
		o.str("0xc000")
		return
	}
	if verb == 'w' {
		verb = 'v'
	}
	if !(verb == 'v' && fl.sharp) {
		switch verb {
		case 'v', 's', 'x', 'X', 'q':
			if fn := m.eng.lookupFormatter(a.t); fn {
				// types with custom Format (e.g. pkg/errors): use Error/String
			}
			if s, ok := m.callMethod(a, "Error"); ok {
				m.fmtStr(o, s, verb, fl)
				return
			}
			if s, ok := m.callMethod(a, "String"); ok {
				m.fmtStr(o, s, verb, fl)
				return
			}
		}
	}
	m.fmtVal(o, a.t, a.v, verb, fl, depth)
}

func (e *Engine) lookupFormatter(t types.Type) bool { return false }

func (m *Machine) fmtStr(o *outbuf, v Value, verb byte, fl fmtFlags) {
	switch verb {
	case 'q':
		m.quoteInto(o, v)
	case 'x', 'X':
		for _, t := range strBytes(v) {
			m.hexByte(o, t, verb == 'X')
		}
	default:
		if verb == 'v' && fl.sharp {
			m.quoteInto(o, v)
			return
		}
		if fl.hasPrec && strLen(v) > fl.prec {
			v = strSlice(v, 0, fl.prec)
		}
		o.val(v)
	}
}

func (m *Machine) hexByte(o *outbuf, t *Term, upper bool) {
	tt := m.tt
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	for _, d := range []*Term{tt.Bin(OLShr, t, mkConst(8, 4)), tt.Bin(OBAnd, t, mkConst(8, 15))} {
		o.b = append(o.b, tt.Ite(tt.Bin(OUlt, d, mkConst(8, 10)), tt.Bin(OAdd, d, mkConst(8, '0')), tt.Bin(OAdd, d, mkConst(8, a))))
	}
}

func (m *Machine) fmtVal(o *outbuf, t types.Type, v Value, verb byte, fl fmtFlags, depth int) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case string, *SymStr:
			if verb == 'd' {
				o.str("%!d(string=")
				o.val(x)
				o.str(")")
				return
			}
			m.fmtStr(o, x, verb, fl)
		case *Term:
			w, signed, _ := intInfo(u)
			if w == 0 {
				if m.branch(x) {
					o.str("true")
				} else {
					o.str("false")
				}
				return
			}
			switch verb {
			case 'd', 'v', 's':
				if verb == 's' {
					o.str("%!s(" + t.String() + "=")
				}
				if fl.plus && verb == 'd' && !m.branch(m.tt.Bin(OSlt, x, mkConst(w, 0))) {
					o.str("+")
				}
				m.fmtInt(o, x, signed, 10, false)
				if verb == 's' {
					o.str(")")
				}
			case 'x', 'X':
				if fl.sharp {
					o.str("0x")
				}
				m.fmtInt(o, x, signed, 16, verb == 'X')
			case 'o':
				if fl.sharp {
					o.str("0")
				}
				m.fmtInt(o, x, signed, 8, false)
			case 'b':
				m.fmtInt(o, x, signed, 2, false)
			case 'c':
				if x.op == OConst {
					o.str(string(rune(sext(x.val, x.w))))
				} else {
					o.b = append(o.b, m.encodeRune(m.tt.ZExt(x, 32))...)
				}
			case 'q':
				if x.op == OConst {
					o.str(strconv.QuoteRune(rune(sext(x.val, x.w))))
				} else {
					o.str("'")
					o.b = append(o.b, m.encodeRune(x)...)
					o.str("'")
				}
			case 'U':
				if x.op == OConst {
					if fl.sharp {
						o.str(fmt.Sprintf("%#U", rune(sext(x.val, x.w))))
					} else {
						o.str(fmt.Sprintf("%U", rune(sext(x.val, x.w))))
					}
				} else {
					o.str("U+symbolic")
				}
			default:
				o.str(fmt.Sprintf("%%!%c(int)", verb))
			}
		case float64:
			o.str(fmt.Sprintf("%"+string(verb), x))
		default:
			o.str(fmt.Sprintf("<%T>", v))
		}
	case *types.Slice, *types.Array:
		var el types.Type
		var vs []Value
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
			vs = v.([]Value)
		} else {
			el = u.(*types.Array).Elem()
			vs = v.(Array)
		}
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			m.fmtStr(o, mkStr(sliceToBytes(vs)), verb, fl)
			return
		}
		o.str("[")
		for i, e := range vs {
			if i > 0 {
				o.str(" ")
			}
			m.fmtElem(o, el, e, verb, fl, depth+1)
		}
		o.str("]")
	case *types.Struct:
		o.str("{")
		for i, e := range v.(Struct) {
			if i > 0 {
				o.str(" ")
			}
			if fl.plus {
				o.str(u.Field(i).Name() + ":")
			}
			if u.Field(i).Exported() {
				m.fmtElem(o, u.Field(i).Type(), e, verb, fl, depth+1)
			} else {
				m.fmtElemRaw(o, u.Field(i).Type(), e, verb, fl, depth+1)
			}
		}
		o.str("}")
	case *types.Map:
		o.str("map[")
		mp := v.(*Map)
		if mp != nil {
			var ents []*mapEnt
			for _, e := range mp.ents {
				if !e.dead {
					ents = append(ents, e)
				}
			}
			if rkind(u.Key()) == reflect.String { // printed in key order
				for i := 1; i < len(ents); i++ {
					for j := i; j > 0 && m.branch(m.strLess(ents[j].k, ents[j-1].k)); j-- {
						ents[j], ents[j-1] = ents[j-1], ents[j]
					}
				}
			}
			for n, e := range ents {
				if n > 0 {
					o.str(" ")
				}
				m.fmtElem(o, u.Key(), e.k, verb, fl, depth+1)
				o.str(":")
				m.fmtElem(o, u.Elem(), *e.v, verb, fl, depth+1)
			}
		}
		o.str("]")
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			o.str("<nil>")
			return
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				if s, ok := (*p).(Struct); ok {
					o.str("&")
					m.fmtVal(o, u.Elem(), s, verb, fl, depth+1)
					return
				}
			}
		}
		o.str("0xc000")
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			o.str("<nil>")
			return
		}
		m.fmtArg(o, i, verb, fl, depth)
	default:
		o.str("<" + t.String() + ">")
	}
}

func (m *Machine) fmtElem(o *outbuf, t types.Type, v Value, verb byte, fl fmtFlags, depth int) {
	if i, ok := v.(Iface); ok {
		m.fmtArg(o, i, verb, fl, depth)
		return
	}
	m.fmtArg(o, Iface{t, v}, verb, fl, depth)
}
func (m *Machine) fmtElemRaw(o *outbuf, t types.Type, v Value, verb byte, fl fmtFlags, depth int) {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			o.str("<nil>")
			return
		}
		t, v = i.t, i.v
	}
	m.fmtVal(o, t, v, verb, fl, depth)
}

var _ ssa.Value
