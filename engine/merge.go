package main

// State merging: side-effect-free branch regions and functions are evaluated
// into if-then-else terms instead of forking the path.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type mergeInfo struct{}

type mexit struct {
	cond     *Term
	from, to int
	phis     []Value // values the target's phis would take
	ret      Value
}

func (m *Machine) mergeVals(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || y.w != x.w {
			return nil, false
		}
		return m.tt.Ite(c, x, y), true
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
		default:
			return nil, false
		}
		if strLen(a) != strLen(b) {
			return nil, false
		}
		if xs, ok := a.(string); ok {
			if ys, ok := b.(string); ok && xs == ys {
				return a, true
			}
		}
		p, q := strBytes(a), strBytes(b)
		r := make([]*Term, len(p))
		for i := range p {
			r[i] = m.tt.Ite(c, p[i], q[i])
		}
		return mkStr(r), true
	case float64:
		y, ok := b.(float64)
		return a, ok && x == y
	case *Value:
		y, ok := b.(*Value)
		return a, ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return a, ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return a, ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil || y.t == nil {
			return a, x.t == nil && y.t == nil
		}
		if !m.sameType(x.t, y.t) {
			return nil, false
		}
		v, ok := m.mergeVals(c, x.v, y.v)
		return Iface{t: x.t, v: v}, ok
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := m.mergeVals(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Struct, len(x))
		for i := range x {
			v, ok := m.mergeVals(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return nil, false
		}
		if len(x) > 0 && &x[0] != &y[0] {
			return nil, false
		}
		if len(x) == 0 && cap(x) > 0 && &x[:1][0] != &y[:1][0] {
			return nil, false
		}
		return a, true
	}
	return nil, false
}

type mctx struct {
	budget int
	paths  int
	ok     bool
	call   bool
}

// specInstrs executes the non-control instructions of a pure block speculatively.
func (m *Machine) specInstrs(fr *frame, b *cblock) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isA := r.(specAbort); isA {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for i := range b.instrs {
		ci := &b.instrs[i]
		m.steps++
		switch in := ci.in.(type) {
		case *ssa.Jump, *ssa.If, *ssa.Return:
			return true
		case *ssa.Call:
			fv, args := m.prepCall(fr, ci, &in.Call)
			if bl, isB := fv.(*ssa.Builtin); isB {
				fr.locals[ci.dst] = m.builtin(bl, args, ci)
			} else if f, isF := fv.(*ssa.Function); isF && f != nil {
				v, ok := m.pureCall(m.eng.getFn(f), args, nil)
				if !ok {
					return false
				}
				fr.locals[ci.dst] = v
			} else {
				return false
			}
		case *ssa.UnOp:
			if in.Op.String() == "*" {
				// large aggregate loads are not worth speculating
				if _, isArr := in.Type().Underlying().(*types.Array); isArr {
					return false
				}
			}
			m.instr(fr, ci)
		default:
			m.instr(fr, ci)
		}
	}
	return true
}

func (m *Machine) phiVals(fr *frame, b *cblock, prev int) []Value {
	if len(b.phis) == 0 {
		return nil
	}
	pi := -1
	for i, p := range b.preds {
		if p == prev {
			pi = i
			break
		}
	}
	r := make([]Value, len(b.phis))
	for i := range b.phis {
		r[i] = m.get(fr, b.phis[i].edges[pi])
	}
	return r
}

func (m *Machine) explore(fr *frame, prev, bi int, cond *Term, mc *mctx, exits *[]mexit) {
	b := &fr.cf.blocks[bi]
	if cond.isFalse() {
		return
	}
	if b.pure && len(b.preds) == 1 && len(b.instrs) <= mc.budget {
		mc.budget -= len(b.instrs)
		last := b.instrs[len(b.instrs)-1].in
		_, isRet := last.(*ssa.Return)
		if !isRet {
			for i := range b.phis {
				fr.locals[b.phis[i].dst] = m.get(fr, b.phis[i].edges[0])
			}
			if m.specInstrs(fr, b) {
				switch last.(type) {
				case *ssa.Jump:
					m.explore(fr, bi, b.succ[0], cond, mc, exits)
					return
				case *ssa.If:
					c := m.dsimp(m.get(fr, b.instrs[len(b.instrs)-1].op[0]).(*Term))
					m.explore(fr, bi, b.succ[0], m.tt.And(cond, c), mc, exits)
					m.explore(fr, bi, b.succ[1], m.tt.And(cond, m.tt.Not(c)), mc, exits)
					return
				}
			}
		}
	}
	*exits = append(*exits, mexit{cond: cond, from: prev, to: bi, phis: m.phiVals(fr, b, prev)})
}

// tryMerge is called at a symbolic If in block bi.  It returns (next block,
// predecessor or -1 if the phis have been set).
func (m *Machine) tryMerge(fr *frame, bi int, c *Term) (int, int, bool) {
	b := &fr.cf.blocks[bi]
	if b.succ[0] == b.succ[1] {
		return 0, 0, false
	}
	mc := &mctx{budget: 60}
	var exits []mexit
	m.spec++
	m.explore(fr, bi, b.succ[0], c, mc, &exits)
	m.explore(fr, bi, b.succ[1], m.tt.Not(c), mc, &exits)
	m.spec--
	if len(exits) > 24 {
		return 0, 0, false
	}
	var targets []int
	groups := map[int][]mexit{}
	for _, e := range exits {
		if _, ok := groups[e.to]; !ok {
			targets = append(targets, e.to)
		}
		groups[e.to] = append(groups[e.to], e)
	}
	if len(targets) == len(exits) && !(len(targets) == 1) {
		return 0, 0, false
	}
	merged := map[int][]Value{}
	conds := map[int]*Term{}
	for _, t := range targets {
		g := groups[t]
		cur := g[len(g)-1].phis
		cd := g[len(g)-1].cond
		vals := append([]Value(nil), cur...)
		for i := len(g) - 2; i >= 0; i-- {
			for k := range vals {
				v, ok := m.mergeVals(g[i].cond, g[i].phis[k], vals[k])
				if !ok {
					return 0, 0, false
				}
				vals[k] = v
			}
			cd = m.tt.Or(g[i].cond, cd)
		}
		merged[t] = vals
		conds[t] = cd
	}
	t := targets[len(targets)-1]
	for i := 0; i+1 < len(targets); i++ {
		if m.branch(conds[targets[i]]) {
			t = targets[i]
			break
		}
	}
	tb := &fr.cf.blocks[t]
	for i := range tb.phis {
		fr.locals[tb.phis[i].dst] = merged[t][i]
	}
	m.w.stats.merges++
	return t, -1, true
}

func (m *Machine) staticPure(cf *cfn) bool {
	if cf.blocks == nil || cf.hasDefer || cf.ext != nil || cf.over != nil || cf.nd != "" {
		return false
	}
	for i := range cf.blocks {
		if !cf.blocks[i].pure {
			return false
		}
	}
	return len(cf.blocks) <= 40
}

// tryPureCall is the entry point outside speculation.
func (m *Machine) tryPureCall(cf *cfn, args []Value, env []Value) (Value, bool) {
	if env != nil {
		return nil, false
	}
	ps, known := m.w.pure[cf]
	if !known {
		ps = &pureStat{static: m.staticPure(cf)}
		m.w.pure[cf] = ps
	}
	if !ps.static {
		return nil, false
	}
	m.spec++
	v, ok := m.pureCall(cf, args, env)
	m.spec--
	if ok {
		ps.ok++
	} else {
		ps.fail++
	}
	return v, ok
}

type pureStat struct {
	static   bool
	ok, fail int
}

func (m *Machine) pureCall(cf *cfn, args []Value, env []Value) (Value, bool) {
	if cf.ext != nil && pureExt[cf.name] {
		var r Value
		ok := func() (ok bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, isA := e.(specAbort); isA {
						ok = false
						return
					}
					panic(e)
				}
			}()
			r = cf.ext(m, args)
			return true
		}()
		return r, ok
	}
	ps, known := m.w.pure[cf]
	if !known {
		ps = &pureStat{static: m.staticPure(cf)}
		m.w.pure[cf] = ps
	}
	if !ps.static || m.spec > 6 {
		return nil, false
	}
	if cf.inRepo {
		m.w.cover(cf)
	}
	fr := &frame{cf: cf, locals: make([]Value, cf.n), caller: m.fr}
	copy(fr.locals, args)
	copy(fr.locals[len(cf.fn.Params):], env)
	old := m.fr
	m.fr = fr
	m.spec++
	mc := &mctx{budget: 600, paths: 40, ok: true}
	var exits []mexit
	m.explorePure(fr, -1, 0, trueT, mc, &exits)
	m.spec--
	m.fr = old
	if !mc.ok || len(exits) == 0 {
		return nil, false
	}
	v := exits[len(exits)-1].ret
	for i := len(exits) - 2; i >= 0; i-- {
		var ok bool
		v, ok = m.mergeVals(exits[i].cond, exits[i].ret, v)
		if !ok {
			return nil, false
		}
	}
	return v, true
}

func (m *Machine) explorePure(fr *frame, prev, bi int, cond *Term, mc *mctx, exits *[]mexit) {
	for {
		if cond.isFalse() || !mc.ok {
			return
		}
		b := &fr.cf.blocks[bi]
		mc.budget -= len(b.instrs) + 1
		if mc.budget < 0 {
			mc.ok = false
			return
		}
		if prev >= 0 && len(b.phis) > 0 {
			vals := m.phiVals(fr, b, prev)
			for i := range b.phis {
				fr.locals[b.phis[i].dst] = vals[i]
			}
		}
		if !m.specInstrs(fr, b) {
			mc.ok = false
			return
		}
		li := &b.instrs[len(b.instrs)-1]
		switch li.in.(type) {
		case *ssa.Return:
			var ret Value
			switch len(li.op) {
			case 0:
				ret = Tuple{}
			case 1:
				ret = m.get(fr, li.op[0])
			default:
				t := make(Tuple, len(li.op))
				for i, o := range li.op {
					t[i] = m.get(fr, o)
				}
				ret = t
			}
			mc.paths--
			if mc.paths < 0 {
				mc.ok = false
				return
			}
			*exits = append(*exits, mexit{cond: cond, ret: ret})
			return
		case *ssa.Jump:
			prev, bi = bi, b.succ[0]
		case *ssa.If:
			c := m.dsimp(m.get(fr, li.op[0]).(*Term))
			if c.op == OConst {
				if c.val == 1 {
					prev, bi = bi, b.succ[0]
				} else {
					prev, bi = bi, b.succ[1]
				}
				continue
			}
			save := append([]Value(nil), fr.locals...)
			m.explorePure(fr, bi, b.succ[0], m.tt.And(cond, c), mc, exits)
			copy(fr.locals, save)
			cond = m.tt.And(cond, m.tt.Not(c))
			prev, bi = bi, b.succ[1]
		default:
			mc.ok = false
			return
		}
	}
}
