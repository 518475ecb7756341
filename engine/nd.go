package main

import (
	"fmt"
	"go/types"
	"strings"
)

type obsRec struct {
	label string
	v     Value
}

func (m *Machine) input(t *Term) *Term {
	m.inputs = append(m.inputs, Input{t})
	return t
}

func concStr(m *Machine, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	m.unsupported("symbolic label")
	return ""
}

func (m *Machine) ndCall(name string, args []Value) Value {
	if m.spec > 0 {
		panic(specAbort{})
	}
	switch name {
	case "SymU8":
		return m.input(m.newVar(8))
	case "SymU16":
		return m.input(m.newVar(16))
	case "SymU32":
		return m.input(m.newVar(32))
	case "SymU64":
		return m.input(m.newVar(64))
	case "SymHidden": // part of the environment, not an input
		return m.newVar(32)
	case "SymBool":
		return m.input(m.newVar(0))
	case "SymChoose":
		n := m.concInt(args[0])
		i := m.choose(n)
		return m.input(mkConst(64, uint64(i)))
	case "SymBranch":
		return mkBool(m.branch(args[0].(*Term)))
	case "SymConc":
		t := args[0].(*Term)
		return mkConst(t.w, m.concretize(t))
	case "SymAssume":
		m.assume(args[0].(*Term))
		return Tuple{}
	case "SymAssert":
		m.check(args[0].(*Term), concStr(m, args[1]))
		return Tuple{}
	case "SymReach":
		m.reached[concStr(m, args[0])] = true
		return Tuple{}
	case "SymObserve":
		m.obsv = append(m.obsv, obsRec{concStr(m, args[0]), args[1]})
		return Tuple{}
	case "SymMapMode":
		m.mapMode = m.concInt(args[0])
		return Tuple{}
	case "SymThorough":
		return mkBool(tier == "thorough")
	case "SymPar":
		var fs []Value
		fs = append(fs, args[1].([]Value)...)
		m.par(m.concInt(args[0]), fs)
		return Tuple{}
	case "SymNative":
		return falseT
	case "SymHash":
		d := m.doHash(concStr(m, args[0]), sliceToBytes(args[1].([]Value)))
		r := make([]Value, len(d))
		for i, b := range d {
			r[i] = byteConsts[b]
		}
		return r
	case "SymUnsupported":
		m.unsupported("%s", m.renderStr(args[0], m.model))
	case "SymField":
		d := args[0].(Iface)
		name := concStr(m, args[1])
		v, t := d.v, d.t
		none := Tuple{"", falseT}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			p := v.(*Value)
			if p == nil {
				return none
			}
			v, t = *p, pt.Elem()
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			e := m.mapFind(v.(*Map), name)
			if e == nil {
				if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					return Tuple{"<no value>", trueT}
				}
				return none
			}
			v, t = *e.v, u.Elem()
		case *types.Struct:
			found := false
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					v, t, found = v.(Struct)[i], u.Field(i).Type(), true
					break
				}
			}
			if !found {
				m.unsupported("field %s of %v", name, t)
			}
		default:
			m.unsupported("field %s of %v", name, t)
		}
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		switch v.(type) {
		case string, *SymStr:
			return Tuple{v, trueT}
		}
		m.unsupported("field %s of type %v", name, t)
	case "SymSkip":
		panic(pathEnd{endAssume, "skip"})
	}
	if strings.HasPrefix(name, "SymR") {
		return m.rprim(name, args)
	}
	panic("unknown nd primitive " + name)
}

func (m *Machine) renderStr(v Value, mod Model) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(evalTerm(t, mod))
		}
		return string(b)
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) renderObs(mod Model) []string {
	var r []string
	for _, o := range m.obsv {
		r = append(r, o.label+"="+m.renderStr(o.v, mod))
	}
	return r
}

func (m *Machine) panicText(p targetPanic) string {
	i, ok := p.v.(Iface)
	if !ok {
		return fmt.Sprintf("%v", p.v)
	}
	if i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(string); ok {
		return s
	}
	mod := m.model
	if s, ok := i.v.(*SymStr); ok {
		return m.renderStr(s, mod)
	}
	txt := ""
	func() {
		defer func() { recover() }()
		if fn := m.eng.lookupMethodByName(i.t, "Error"); fn != nil {
			v := m.callFn(fn, []Value{i.v}, nil)
			txt = m.renderStr(v, mod)
		}
	}()
	if txt == "" {
		txt = strings.TrimSpace(i.t.String())
	}
	return txt
}
