package main

import (
	"go/types"
	"reflect"
)

// The SymR* primitives give model code a view of arbitrary values: they are to
// the models of encoding/json and yaml what package reflect is to the originals.

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func box(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

// rptr gives the address and the type of what a pointer points to.
func (m *Machine) rptr(v Value) (*Value, types.Type) {
	i := v.(Iface)
	if i.t == nil {
		m.unsupported("reflection on nil")
	}
	pt, ok := i.t.Underlying().(*types.Pointer)
	if !ok {
		m.unsupported("reflection: %v is not a pointer", i.t)
	}
	p, _ := i.v.(*Value)
	if p == nil {
		m.unsupported("reflection through a nil pointer")
	}
	return p, pt.Elem()
}

func (m *Machine) rprim(name string, a []Value) Value {
	i, _ := a[0].(Iface)
	isPtr := false
	if i.t != nil {
		_, isPtr = i.t.Underlying().(*types.Pointer)
	}
	switch name {
	case "SymRKind":
		if i.t == nil {
			return intV(0)
		}
		return intV(int(rkind(i.t)))
	case "SymRElemKind": // of what a pointer, slice or map holds
		if i.t == nil {
			return intV(0)
		}
		switch u := i.t.Underlying().(type) {
		case *types.Pointer:
			return intV(int(rkind(u.Elem())))
		case *types.Slice:
			return intV(int(rkind(u.Elem())))
		case *types.Array:
			return intV(int(rkind(u.Elem())))
		case *types.Map:
			return intV(int(rkind(u.Elem())))
		}
		return intV(0)
	case "SymRType":
		if i.t == nil {
			return "nil"
		}
		return i.t.String()
	case "SymRIsNil":
		switch v := i.v.(type) {
		case nil:
			return trueT
		case *Value:
			return mkBool(v == nil)
		case []Value:
			return mkBool(v == nil)
		case *Map:
			return mkBool(v == nil)
		}
		return falseT
	case "SymRNum":
		t, v := i.t, i.v
		if isPtr {
			p, e := m.rptr(a[0])
			t, v = e, *p
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			return intV(u.NumFields())
		case *types.Slice:
			return intV(len(v.([]Value)))
		case *types.Array:
			return intV(len(v.(Array)))
		case *types.Map:
			if v.(*Map) == nil {
				return intV(0)
			}
			return intV(v.(*Map).n)
		}
		m.unsupported("reflection: length of %v", t)
	case "SymRFieldInfo":
		t := i.t
		if isPtr {
			t = i.t.Underlying().(*types.Pointer).Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			m.unsupported("reflection: fields of %v", t)
		}
		k := m.concInt(a[1])
		f := s.Field(k)
		return Tuple{f.Name(), s.Tag(k), mkBool(f.Anonymous()), mkBool(f.Exported())}
	case "SymRField":
		k := m.concInt(a[1])
		if isPtr {
			p, t := m.rptr(a[0])
			return Iface{types.NewPointer(t.Underlying().(*types.Struct).Field(k).Type()), &(*p).(Struct)[k]}
		}
		return box(i.t.Underlying().(*types.Struct).Field(k).Type(), copyVal(i.v.(Struct)[k]))
	case "SymRIndex":
		k := m.concInt(a[1])
		t, v := i.t, i.v
		if isPtr {
			p, e := m.rptr(a[0])
			t, v = e, *p
		}
		var et types.Type
		var el *Value
		switch u := t.Underlying().(type) {
		case *types.Slice:
			et, el = u.Elem(), &v.([]Value)[k]
		case *types.Array:
			et, el = u.Elem(), &v.(Array)[k]
		default:
			m.unsupported("reflection: element of %v", t)
		}
		if isPtr {
			return Iface{types.NewPointer(et), el}
		}
		return box(et, copyVal(*el))
	case "SymRDeref":
		if p, ok := i.v.(*Value); ok && p == nil {
			return Iface{}
		}
		p, t := m.rptr(a[0])
		return box(t, copyVal(*p))
	case "SymRNew": // p points to a pointer: allocate what that one points to
		p, t := m.rptr(a[0])
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			m.unsupported("reflection: allocating for %v", t)
		}
		n := new(Value)
		*n = zero(pt.Elem())
		*p = n
		return Iface{t, n}
	case "SymRZero":
		p, t := m.rptr(a[0])
		storeInto(p, zero(t))
		return Tuple{}
	case "SymRGrow": // append a zero element
		p, t := m.rptr(a[0])
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			m.unsupported("reflection: appending to %v", t)
		}
		old := (*p).([]Value)
		n := make([]Value, len(old)+1)
		copy(n, old)
		n[len(old)] = zero(st.Elem())
		*p = n
		return Iface{types.NewPointer(st.Elem()), &n[len(old)]}
	case "SymREmpty": // an empty, not nil, slice or map
		p, t := m.rptr(a[0])
		switch t.Underlying().(type) {
		case *types.Slice:
			*p = []Value{}
		case *types.Map:
			*p = newMap()
		default:
			m.unsupported("reflection: emptying %v", t)
		}
		return Tuple{}
	case "SymRElem": // room for one element of the map pointed to
		_, t := m.rptr(a[0])
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			m.unsupported("reflection: element of %v", t)
		}
		n := new(Value)
		*n = zero(mt.Elem())
		return Iface{types.NewPointer(mt.Elem()), n}
	case "SymRMapSet":
		p, t := m.rptr(a[0])
		mt := t.Underlying().(*types.Map)
		if rkind(mt.Key()) != reflect.String {
			m.unsupported("reflection: map with keys of type %v", mt.Key())
		}
		e, _ := m.rptr(a[2])
		m.mapSet((*p).(*Map), a[1], *e)
		return Tuple{}
	case "SymRMapAt": // k-th entry, in order of insertion
		mt := i.t.Underlying().(*types.Map)
		k := m.concInt(a[1])
		for _, e := range i.v.(*Map).ents {
			if e.dead {
				continue
			}
			if k == 0 {
				return Tuple{box(mt.Key(), copyVal(e.k)), box(mt.Elem(), copyVal(*e.v))}
			}
			k--
		}
		m.unsupported("reflection: no such map entry")
	case "SymRSet":
		p, t := m.rptr(a[0])
		v := a[1].(Iface)
		switch u := t.Underlying().(type) {
		case *types.Interface:
			*p = v
			return Tuple{}
		case *types.Basic:
			if v.t != nil {
				if vb, ok := v.t.Underlying().(*types.Basic); ok && (vb.Info()&^types.IsUnsigned) == (u.Info()&^types.IsUnsigned) {
					*p = m.convert(t, v.t, v.v)
					return Tuple{}
				}
			}
		case *types.Slice:
			if s, ok := v.v.([]Value); ok {
				*p = s
				return Tuple{}
			}
		}
		m.unsupported("reflection: storing %v in %v", v.t, t)
	case "SymRStr":
		return i.v
	case "SymRInt":
		return m.convert(types.Typ[types.Int64], i.t, i.v)
	case "SymRBool":
		return i.v
	case "SymRBytes":
		return i.v
	case "SymRFloat":
		return i.v
	}
	panic("unknown reflection primitive " + name)
}
