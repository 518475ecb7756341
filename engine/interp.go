package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type endKind int

const (
	endDone endKind = iota
	endAssume
	endUnsupported
	endSteps
	endDepth
	endViolation
	endInfeasible
	endStopped
)

type pathEnd struct {
	kind endKind
	msg  string
}
type targetPanic struct{ v Value }

type Dec struct {
	kind uint8 // 0 branch false,1 true (forked); 2/3 forced; 4 choice; 5 value eq; 6 value ne
	val  uint64
}

type Input struct {
	t *Term
}

type frame struct {
	cf     *cfn
	locals []Value
	caller *frame
	defers []deferred
	panicV *targetPanic
	result Value
	pos    token.Pos
}
type deferred struct {
	fn   Value
	args []Value
	ci   *cinstr
}

type Machine struct {
	eng     *Engine
	w       *Worker
	tt      *TermTable
	prefix  []Dec
	trace   []Dec
	pc      []*Term
	vars    []*Term
	inputs  []Input
	dom     map[*Term]*[4]uint64
	multi   map[*Term]bool
	model   Model
	modelOK bool
	globals map[*ssa.Global]*Value
	memo    map[interface{}]interface{}
	steps   int64
	inGo    int // depth of goroutines being run
	sched   *sched
	locks   map[*Value]*lockState
	depth   int
	mapMode int
	isInit  bool
	fr      *frame
	spec    int // speculation depth (merging)
	reached map[string]bool
	forks   int
	hashes  []hashRec
	nat     map[string]interface{}
	obsv    []obsRec
	sliceOf map[*Value][]Value
	unknown bool
}

func (m *Machine) get(fr *frame, s int32) Value {
	if s >= 0 {
		return fr.locals[s]
	}
	if s == -1<<30 {
		return nil
	}
	c := fr.cf.consts[^s]
	if g, ok := c.(globalRef); ok {
		return m.globalAddr(g.g)
	}
	return c
}

func (m *Machine) unsupported(f string, a ...interface{}) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(pathEnd{endUnsupported, fmt.Sprintf(f, a...) + m.where()})
}

func (m *Machine) where() string {
	s := ""
	n := 0
	for f := m.fr; f != nil && n < 6; f = f.caller {
		s += " < " + f.cf.name
		n++
	}
	return s
}

type runtimeErr struct{}

func (m *Machine) runtimePanic(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{Iface{t: m.eng.runtimeErrorT, v: "runtime error: " + msg}})
}

func (m *Machine) sameType(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

// ---- decisions ----

func (m *Machine) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	m.pc = append(m.pc, c)
	if v := c.dep; v != nil && v != multiDep && v.w <= 8 {
		s := c.byteSet()
		d := m.domain(v)
		for i := range d {
			d[i] &= s[i]
		}
	} else {
		m.markMulti(c, map[*Term]bool{})
	}
}
func (m *Machine) markMulti(t *Term, seen map[*Term]bool) {
	if t == nil || t.op == OConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		m.multi[t] = true
		return
	}
	m.markMulti(t.a, seen)
	m.markMulti(t.b, seen)
	m.markMulti(t.c, seen)
}
func (m *Machine) domain(v *Term) *[4]uint64 {
	d := m.dom[v]
	if d == nil {
		f := fullSet(v.w)
		d = &f
		m.dom[v] = d
	}
	return d
}
func firstIn(s *[4]uint64) (uint64, bool) {
	for i, x := range s {
		if x != 0 {
			for j := 0; j < 64; j++ {
				if x>>uint(j)&1 == 1 {
					return uint64(i*64 + j), true
				}
			}
		}
	}
	return 0, false
}

// ensureModel makes m.model satisfy m.pc.
func (m *Machine) ensureModel() bool {
	if m.modelOK {
		return true
	}
	r, mod := m.w.solver.Check(m.pc, nil, m.vars)
	if r == Sat {
		m.model = mod
		m.modelOK = true
		return true
	}
	if r == Unknown {
		m.unknown = true
		m.w.stats.unknown++
		return false
	}
	panic(pathEnd{endInfeasible, "path condition unsat"})
}

func (m *Machine) modelWith(v *Term, val uint64) Model {
	n := make(Model, len(m.model)+1)
	for k, x := range m.model {
		n[k] = x
	}
	n[v] = val
	return n
}

// feasible computes which sides of c are satisfiable, with models.
func (m *Machine) feasible(c *Term) (ct, cf bool, mt, mf Model) {
	if m.w.run.stop.Load() {
		panic(pathEnd{endStopped, "stopped"})
	}
	if v := c.dep; v != nil && v != multiDep && v.w <= 8 {
		s := c.byteSet()
		d := m.domain(v)
		var T, F [4]uint64
		for i := range d {
			T[i] = d[i] & s[i]
			F[i] = d[i] &^ s[i]
		}
		tv, tn := firstIn(&T)
		fv, fn := firstIn(&F)
		if !tn || !fn {
			m.w.stats.domain++
			if m.modelOK {
				return tn, fn, m.model, m.model
			}
			return tn, fn, nil, nil
		}
		if !m.multi[v] && m.ensureModel() {
			m.w.stats.domain++
			if evalTerm(c, m.model) == 1 {
				return true, true, m.model, m.modelWith(v, fv)
			}
			return true, true, m.modelWith(v, tv), m.model
		}
	}
	if m.ensureModel() {
		if evalTerm(c, m.model) == 1 {
			r, mod := m.w.solver.Check(m.pc, m.tt.Not(c), m.vars)
			if r == Unknown {
				m.unknown = true
				m.w.stats.unknown++
			}
			return true, r != Unsat, m.model, mod
		}
		r, mod := m.w.solver.Check(m.pc, c, m.vars)
		if r == Unknown {
			m.unknown = true
			m.w.stats.unknown++
		}
		return r != Unsat, true, mod, m.model
	}
	r1, m1 := m.w.solver.Check(m.pc, c, m.vars)
	r2, m2 := m.w.solver.Check(m.pc, m.tt.Not(c), m.vars)
	return r1 != Unsat, r2 != Unsat, m1, m2
}

func (m *Machine) setModel(mod Model) {
	m.model = mod
	m.modelOK = mod != nil
	if mod == nil {
		m.model = Model{}
	}
}

func (m *Machine) exportModel(mod Model) map[int]uint64 {
	if mod == nil {
		return nil
	}
	r := make(map[int]uint64, len(mod))
	for k, v := range mod {
		r[int(k.val)] = v
	}
	return r
}

func (m *Machine) pushAlt(d Dec, mod Model) {
	p := make([]Dec, len(m.trace)+1)
	copy(p, m.trace)
	p[len(m.trace)] = d
	m.forks++
	m.w.push(&Item{prefix: p, model: m.exportModel(mod)})
}

// dsimp replaces a condition on a single byte by its value when the byte's
// domain on this path already decides it.
func (m *Machine) dsimp(c *Term) *Term {
	if c.op == OConst {
		return c
	}
	v := c.dep
	if v == nil || v == multiDep || v.w > 8 {
		return c
	}
	d := m.domain(v) // the same on a replayed prefix as on the first run
	s := c.byteSet()
	var anyT, anyF uint64
	for i := range d {
		anyT |= d[i] & s[i]
		anyF |= d[i] &^ s[i]
	}
	if anyT == 0 && anyF != 0 {
		return falseT
	}
	if anyF == 0 && anyT != 0 {
		return trueT
	}
	return c
}

func (m *Machine) branch(c *Term) bool {
	c = m.dsimp(c)
	if c.op == OConst {
		return c.val == 1
	}
	if m.spec > 0 {
		if v := c.dep; v != nil && v != multiDep && v.w <= 8 {
			s := c.byteSet()
			d := m.domain(v)
			var anyT, anyF uint64
			for i := range d {
				anyT |= d[i] & s[i]
				anyF |= d[i] &^ s[i]
			}
			if anyT == 0 {
				return false
			}
			if anyF == 0 {
				return true
			}
		}
		panic(specAbort{})
	}
	if m.isInit {
		panic("symbolic branch in init")
	}
	if len(m.trace) < len(m.prefix) {
		d := m.prefix[len(m.trace)]
		m.trace = append(m.trace, d)
		switch d.kind {
		case 0:
			m.addPC(m.tt.Not(c))
			return false
		case 1:
			m.addPC(c)
			return true
		case 2:
			return false
		case 3:
			return true
		}
		panic(fmt.Sprintf("decision mismatch: %v at %d", d, len(m.trace)))
	}
	ct, cf, mt, mf := m.feasible(c)
	switch {
	case ct && cf:
		m.pushAlt(Dec{kind: 0}, mf)
		m.trace = append(m.trace, Dec{kind: 1})
		m.addPC(c)
		m.setModel(mt)
		return true
	case ct:
		m.trace = append(m.trace, Dec{kind: 3})
		if mt != nil {
			m.setModel(mt)
		}
		return true
	case cf:
		m.trace = append(m.trace, Dec{kind: 2})
		if mf != nil {
			m.setModel(mf)
		}
		return false
	}
	panic(pathEnd{endInfeasible, "both sides infeasible"})
}

// choose forks n ways without constraining any variable.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if len(m.trace) < len(m.prefix) {
		d := m.prefix[len(m.trace)]
		if d.kind != 4 {
			panic("decision mismatch (choose)")
		}
		m.trace = append(m.trace, d)
		return int(d.val)
	}
	mod := m.model
	if !m.modelOK {
		mod = nil
	}
	for i := n - 1; i >= 1; i-- {
		m.pushAlt(Dec{4, uint64(i)}, mod)
	}
	m.trace = append(m.trace, Dec{4, 0})
	return 0
}

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	for {
		if len(m.trace) < len(m.prefix) {
			d := m.prefix[len(m.trace)]
			m.trace = append(m.trace, d)
			eq := m.tt.Eq(t, mkConst(t.w, d.val))
			switch d.kind {
			case 5:
				m.addPC(eq)
				return d.val
			case 6:
				m.addPC(m.tt.Not(eq))
				continue
			case 7: // forced
				return d.val
			}
			panic("decision mismatch (concretize)")
		}
		if !m.ensureModel() {
			m.unsupported("concretize: solver unknown")
		}
		v := evalTerm(t, m.model)
		eq := m.tt.Eq(t, mkConst(t.w, v))
		_, cf, _, mf := m.feasible(eq)
		if !cf {
			m.trace = append(m.trace, Dec{7, v})
			return v
		}
		m.pushAlt(Dec{6, v}, mf)
		m.trace = append(m.trace, Dec{5, v})
		m.addPC(eq)
		return v
	}
}

func (m *Machine) concInt(v Value) int {
	t := v.(*Term)
	if t.op == OConst {
		return int(sext(t.val, t.w))
	}
	return int(sext(m.concretize(t), t.w))
}

func (m *Machine) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{endAssume, "assume"})
	}
	if len(m.trace) < len(m.prefix) {
		d := m.prefix[len(m.trace)]
		m.trace = append(m.trace, d)
		switch d.kind {
		case 3:
			return
		case 1:
			m.addPC(c)
			return
		}
		panic("decision mismatch (assume)")
	}
	ct, cf, mt, _ := m.feasible(c)
	if !ct {
		panic(pathEnd{endAssume, "assume"})
	}
	if !cf {
		m.trace = append(m.trace, Dec{kind: 3})
		if mt != nil {
			m.setModel(mt)
		}
		return
	}
	m.trace = append(m.trace, Dec{kind: 1})
	m.addPC(c)
	m.setModel(mt)
}

// check decides an assertion for every value of the path's variables.
func (m *Machine) check(c *Term, msg string) {
	if len(m.trace) < len(m.prefix) {
		// already decided on the path this one forked from
		if !c.isConst() {
			d := m.prefix[len(m.trace)]
			m.trace = append(m.trace, d)
			if d.kind == 1 {
				m.addPC(c)
			}
		}
		return
	}
	m.w.stats.asserts++
	if c.isTrue() {
		m.w.stats.assertsTriv++
		return
	}
	if c.isFalse() {
		if m.ensureModel() {
			m.w.violation(m, msg, m.model)
		} else {
			m.w.inconclusive(m, msg)
		}
		panic(pathEnd{endViolation, msg})
	}
	r, mod := m.w.solver.Check(m.pc, m.tt.Not(c), m.vars)
	switch r {
	case Unsat:
		m.w.stats.assertsSolver++
		m.trace = append(m.trace, Dec{kind: 3})
	case Sat:
		// report, then go on with the values for which the assertion holds
		m.w.violation(m, msg, mod)
		m.trace = append(m.trace, Dec{kind: 1})
		m.addPC(c)
		m.modelOK = false
		if !m.ensureModel() {
			panic(pathEnd{endViolation, msg})
		}
	default:
		m.w.inconclusive(m, msg)
		m.trace = append(m.trace, Dec{kind: 1})
		m.addPC(c)
		m.modelOK = false
	}
}

func (m *Machine) newVar(w uint8) *Term {
	v := m.tt.Var(len(m.vars), w)
	m.vars = append(m.vars, v)
	return v
}

// ---- calls ----

func (m *Machine) call(fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return m.callFn(f, args, nil)
	case *Closure:
		return m.callFn(f.fn, args, f.env)
	case *NatFunc:
		return f.f(m, args)
	case *ssa.Builtin:
		return m.builtin(f, args, nil)
	case nil:
		m.runtimePanic("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("call %T", fv))
}

func (m *Machine) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	cf := m.eng.getFn(fn)
	if cf.nd != "" {
		return m.ndCall(cf.nd, args)
	}
	if cf.ext != nil {
		return cf.ext(m, args)
	}
	if cf.over != nil {
		if m.isInit && false {
			return nil
		}
		return m.callFn(cf.over, args, nil)
	}
	if cf.isInit && m.fr != nil && m.fr.cf.isInit {
		return Tuple{} // imported packages are initialised lazily
	}
	if cf.blocks == nil {
		m.unsupported("no body: %s", cf.name)
	}
	if m.depth > m.eng.maxDepth {
		if m.spec > 0 {
			panic(specAbort{})
		}
		panic(pathEnd{endDepth, "call depth" + m.where()})
	}
	if cf.inRepo {
		m.w.cover(cf)
	}
	if m.spec == 0 && !m.isInit && m.sched == nil && m.anySym(args) {
		if r, ok := m.tryPureCall(cf, args, env); ok {
			return r
		}
	}
	fr := &frame{cf: cf, locals: make([]Value, cf.n), caller: m.fr}
	copy(fr.locals, args)
	copy(fr.locals[len(fn.Params):], env)
	m.fr = fr
	m.depth++
	m.run(fr)
	m.depth--
	m.fr = fr.caller
	return fr.result
}

func (m *Machine) run(fr *frame) {
	if !fr.cf.hasDefer {
		m.exec(fr, 0)
		return
	}
	depth := m.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					if e, isRT := r.(error); isRT && strings.Contains(e.Error(), "runtime error") {
						panic(r)
					}
					panic(r)
				}
				fr.panicV = &tp
				m.fr = fr
				m.depth = depth
			}
		}()
		m.exec(fr, 0)
	}()
	if fr.panicV == nil {
		return
	}
	m.runDefers(fr)
	if fr.panicV != nil {
		p := *fr.panicV
		m.fr = fr.caller
		panic(p)
	}
	// recovered
	if rb := fr.cf.fn.Recover; rb != nil {
		m.exec(fr, rb.Index)
	} else {
		fr.result = zero(fr.cf.fn.Signature.Results())
	}
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := m.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicV = &tp
					m.fr = fr
					m.depth = depth
				}
			}()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				m.builtin(b, d.args, d.ci)
			} else {
				m.call(d.fn, d.args)
			}
		}()
	}
	if fr.panicV != nil {
		p := *fr.panicV
		m.fr = fr.caller
		panic(p)
	}
}

func (m *Machine) step() {
	m.steps++
	if m.steps&0xffff == 0 && m.w.run.stop.Load() {
		panic(pathEnd{endStopped, "stopped"})
	}
	if m.steps > m.eng.maxSteps && !m.isInit {
		panic(pathEnd{endSteps, "step bound" + m.where()})
	}
}

func (m *Machine) exec(fr *frame, bi int) {
	cf := fr.cf
	prev := -1
	for {
		b := &cf.blocks[bi]
		if len(b.phis) > 0 && prev >= 0 {
			m.phis(fr, b, prev)
		}
		next := -1
		for i := range b.instrs {
			ci := &b.instrs[i]
			m.steps++
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = b.succ[0]
			case *ssa.If:
				c := m.dsimp(m.get(fr, ci.op[0]).(*Term))
				if c.op == OConst {
					if c.val == 1 {
						next = b.succ[0]
					} else {
						next = b.succ[1]
					}
				} else if m.spec == 0 {
					nb, np, ok := 0, 0, false
					if m.sched == nil {
						nb, np, ok = m.tryMerge(fr, bi, c)
					}
					if ok {
						if np < 0 {
							// phis already evaluated
							prev = -1
							bi = nb
							next = -2
							break
						}
						bi = np
						next = nb
						break
					}
					if m.branch(c) {
						next = b.succ[0]
					} else {
						next = b.succ[1]
					}
				} else {
					panic(specAbort{})
				}
			case *ssa.Return:
				switch len(ci.op) {
				case 0:
					fr.result = Tuple{}
				case 1:
					fr.result = m.get(fr, ci.op[0])
				default:
					t := make(Tuple, len(ci.op))
					for i, o := range ci.op {
						t[i] = m.get(fr, o)
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := m.get(fr, ci.op[0])
				if m.spec > 0 {
					panic(specAbort{})
				}
				panic(targetPanic{v})
			case *ssa.RunDefers:
				m.runDefers(fr)
			case *ssa.Call:
				if cf.isInit {
					m.initCall(fr, ci, in)
				} else {
					fr.pos = in.Pos()
					if m.sched != nil && cf.inRepo {
						m.yield()
					}
					fr.locals[ci.dst] = m.doCall(fr, ci, &in.Call)
				}
			default:
				if m.sched != nil && cf.inRepo {
					m.access(ci.in)
				}
				m.instr(fr, ci)
			}
		}
		if m.steps > m.eng.maxSteps && !m.isInit {
			panic(pathEnd{endSteps, "step bound" + m.where()})
		}
		if next == -2 {
			continue
		}
		if next < 0 {
			panic("block fell through: " + cf.name)
		}
		prev = bi
		bi = next
	}
}

func (m *Machine) phis(fr *frame, b *cblock, prev int) {
	pi := -1
	for i, p := range b.preds {
		if p == prev {
			pi = i
			break
		}
	}
	if len(b.phis) == 1 {
		fr.locals[b.phis[0].dst] = m.get(fr, b.phis[0].edges[pi])
		return
	}
	tmp := make([]Value, len(b.phis))
	for i := range b.phis {
		tmp[i] = m.get(fr, b.phis[i].edges[pi])
	}
	for i := range b.phis {
		fr.locals[b.phis[i].dst] = tmp[i]
	}
}

// initCall: calls in package initialisers tolerate unsupported code.
func (m *Machine) initCall(fr *frame, ci *cinstr, in *ssa.Call) {
	d := m.depth
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				m.eng.initNotes = append(m.eng.initNotes, fmt.Sprintf("init %s: %v panicked: %v", fr.cf.name, in, tp.v))
			} else if pe, ok := r.(pathEnd); ok {
				m.eng.initNotes = append(m.eng.initNotes, fmt.Sprintf("init %s: %v: %v", fr.cf.name, in, pe.msg))
			} else {
				m.eng.initNotes = append(m.eng.initNotes, fmt.Sprintf("init %s: %v: engine: %v", fr.cf.name, in, r))
			}
			m.fr = fr
			m.depth = d
			fr.locals[ci.dst] = zero(in.Type())
		}
	}()
	fr.locals[ci.dst] = m.doCall(fr, ci, &in.Call)
}

func (m *Machine) prepCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) (Value, []Value) {
	v := m.get(fr, ci.op[0])
	if cc.IsInvoke() {
		i, ok := v.(Iface)
		if !ok {
			panic(fmt.Sprintf("invoke on %T in %s", v, fr.cf.name))
		}
		if i.t == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, len(ci.op))
		args[0] = i.v
		for k := 1; k < len(ci.op); k++ {
			args[k] = m.get(fr, ci.op[k])
		}
		if i.t == m.eng.runtimeErrorT {
			return &NatFunc{name: "runtimeError." + cc.Method.Name(), f: func(m *Machine, a []Value) Value { return a[0] }}, args
		}
		fn := m.eng.findMethod(i.t, cc.Method)
		if fn == nil {
			panic(fmt.Sprintf("no method %v on %v", cc.Method, i.t))
		}
		return fn, args
	}
	args := make([]Value, len(ci.op)-1)
	for k := range args {
		args[k] = m.get(fr, ci.op[k+1])
	}
	return v, args
}

func (m *Machine) doCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) Value {
	fv, args := m.prepCall(fr, ci, cc)
	if b, ok := fv.(*ssa.Builtin); ok {
		return m.builtin(b, args, ci)
	}
	return m.call(fv, args)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (m *Machine) load(p Value) Value {
	pp, ok := p.(*Value)
	if !ok {
		panic(fmt.Sprintf("load of %T%s", p, m.where()))
	}
	if pp == nil {
		m.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return copyVal(*pp)
}

func (m *Machine) instr(fr *frame, ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		fr.locals[ci.dst] = m.binop(in.Op, in.X.Type(), m.get(fr, ci.op[0]), m.get(fr, ci.op[1]), in.Y.Type())
	case *ssa.UnOp:
		x := m.get(fr, ci.op[0])
		switch in.Op {
		case token.MUL:
			fr.locals[ci.dst] = m.load(x)
		case token.NOT:
			fr.locals[ci.dst] = m.tt.Not(x.(*Term))
		case token.SUB:
			switch x := x.(type) {
			case *Term:
				fr.locals[ci.dst] = m.tt.Neg(x)
			case float64:
				fr.locals[ci.dst] = -x
			case complex128:
				fr.locals[ci.dst] = -x
			}
		case token.XOR:
			fr.locals[ci.dst] = m.tt.BNot(x.(*Term))
		case token.ARROW:
			ch := x.(*Chan)
			elem := in.X.Type().Underlying().(*types.Chan).Elem()
			var v Value
			ok := true
			switch {
			case ch == nil:
				m.unsupported("recv on nil channel")
			case len(ch.buf) > 0:
				v = ch.buf[0]
				ch.buf = ch.buf[1:]
			case ch.closed:
				v = zero(elem)
				ok = false
			default:
				m.unsupported("blocking recv")
			}
			if in.CommaOk {
				fr.locals[ci.dst] = Tuple{v, mkBool(ok)}
			} else {
				fr.locals[ci.dst] = v
			}
		default:
			panic("unop " + in.Op.String())
		}
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(deref(in.Type()))
		fr.locals[ci.dst] = p
	case *ssa.Store:
		p, ok := m.get(fr, ci.op[0]).(*Value)
		if !ok {
			m.unsupported("store to %T", m.get(fr, ci.op[0]))
		}
		if p == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		storeInto(p, m.get(fr, ci.op[1]))
	case *ssa.FieldAddr:
		p := m.get(fr, ci.op[0]).(*Value)
		if p == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported("field of native object %T (%v)", *p, in.X.Type())
		}
		fr.locals[ci.dst] = &s[in.Field]
	case *ssa.Field:
		fr.locals[ci.dst] = m.get(fr, ci.op[0]).(Struct)[in.Field]
	case *ssa.IndexAddr:
		x := m.get(fr, ci.op[0])
		it := m.get(fr, ci.op[1]).(*Term)
		var arr []Value
		switch x := x.(type) {
		case []Value:
			arr = x
		case *Value:
			if x == nil {
				m.runtimePanic("invalid memory address or nil pointer dereference")
			}
			arr = []Value((*x).(Array))
		default:
			panic(fmt.Sprintf("indexaddr %T", x))
		}
		if it.op != OConst {
			// read-only use of a scalar element: build a symbolic read
			if v, ok := m.symRead(in, arr, it); ok {
				p := new(Value)
				*p = v
				fr.locals[ci.dst] = p
				return
			}
		}
		i := m.index(it, len(arr), in.Index.Type())
		fr.locals[ci.dst] = &arr[i]
	case *ssa.Index:
		x := m.get(fr, ci.op[0])
		it := m.get(fr, ci.op[1]).(*Term)
		switch x := x.(type) {
		case Array:
			if it.op != OConst {
				if v, ok := m.symReadVals([]Value(x), it, in.Index.Type()); ok {
					fr.locals[ci.dst] = v
					return
				}
			}
			fr.locals[ci.dst] = x[m.index(it, len(x), in.Index.Type())]
		case string, *SymStr:
			fr.locals[ci.dst] = m.strIndex(x, it, in.Index.Type())
		default:
			panic(fmt.Sprintf("index %T", x))
		}
	case *ssa.Lookup:
		x := m.get(fr, ci.op[0])
		k := m.get(fr, ci.op[1])
		if mp, ok := x.(*Map); ok {
			e := m.mapFind(mp, k)
			var v Value
			if e != nil {
				v = copyVal(*e.v)
			} else {
				t := in.X.Type().Underlying().(*types.Map).Elem()
				v = zero(t)
			}
			if in.CommaOk {
				fr.locals[ci.dst] = Tuple{v, mkBool(e != nil)}
			} else {
				fr.locals[ci.dst] = v
			}
			return
		}
		fr.locals[ci.dst] = m.strIndex(x, k.(*Term), in.Index.Type())
	case *ssa.MapUpdate:
		mp := m.get(fr, ci.op[0]).(*Map)
		if mp == nil {
			m.throwErr("assignment to entry in nil map")
		}
		m.mapSet(mp, m.get(fr, ci.op[1]), m.get(fr, ci.op[2]))
	case *ssa.MakeMap:
		fr.locals[ci.dst] = newMap()
	case *ssa.MakeChan:
		fr.locals[ci.dst] = &Chan{cap: m.concInt(m.get(fr, ci.op[0]))}
	case *ssa.MakeSlice:
		n := m.concInt(m.get(fr, ci.op[0]))
		c := m.concInt(m.get(fr, ci.op[1]))
		if n < 0 || n > 1<<26 {
			m.runtimePanic("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			m.runtimePanic("makeslice: cap out of range")
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, n, c)
		full := s[:c]
		if _, ok := el.Underlying().(*types.Basic); ok {
			z := zero(el)
			for i := range full {
				full[i] = z
			}
		} else {
			for i := range full {
				full[i] = zero(el)
			}
		}
		fr.locals[ci.dst] = s
	case *ssa.Slice:
		fr.locals[ci.dst] = m.slice(fr, ci, in)
	case *ssa.MakeInterface:
		fr.locals[ci.dst] = Iface{t: in.X.Type(), v: m.get(fr, ci.op[0])}
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, o := range ci.op[1:] {
			c.env = append(c.env, m.get(fr, o))
		}
		fr.locals[ci.dst] = c
	case *ssa.ChangeInterface:
		fr.locals[ci.dst] = m.get(fr, ci.op[0])
	case *ssa.ChangeType:
		fr.locals[ci.dst] = m.get(fr, ci.op[0])
	case *ssa.Convert:
		fr.locals[ci.dst] = m.convert(in.Type(), in.X.Type(), m.get(fr, ci.op[0]))
	case *ssa.MultiConvert:
		fr.locals[ci.dst] = m.convert(in.Type(), in.X.Type(), m.get(fr, ci.op[0]))
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, ci.op[0]).([]Value)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			m.runtimePanic("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.locals[ci.dst] = p
	case *ssa.TypeAssert:
		fr.locals[ci.dst] = m.typeAssert(in, m.get(fr, ci.op[0]).(Iface))
	case *ssa.Extract:
		fr.locals[ci.dst] = m.get(fr, ci.op[0]).(Tuple)[in.Index]
	case *ssa.Range:
		x := m.get(fr, ci.op[0])
		switch x := x.(type) {
		case *Map:
			it := &mapIter{mp: x, visited: map[*mapEnt]bool{}, orig: map[*mapEnt]bool{}}
			if x != nil {
				for _, e := range x.ents {
					it.orig[e] = true
				}
			}
			if fr.cf.inRepo {
				it.mode = m.mapMode
			}
			fr.locals[ci.dst] = it
		default:
			fr.locals[ci.dst] = &strIter{s: x}
		}
	case *ssa.Next:
		switch it := m.get(fr, ci.op[0]).(type) {
		case *mapIter:
			fr.locals[ci.dst] = it.next(m)
		case *strIter:
			fr.locals[ci.dst] = it.next(m)
		}
	case *ssa.Defer:
		fv, args := m.prepCall(fr, ci, &in.Call)
		fr.defers = append(fr.defers, deferred{fv, args, ci})
	case *ssa.Go:
		// One schedule: the goroutine runs to completion here.  What it sends is
		// buffered; anything else that would block is unsupported.
		fv, args := m.prepCall(fr, ci, &in.Call)
		m.inGo++
		m.call(fv, args)
		m.inGo--
	case *ssa.Send:
		ch := m.get(fr, ci.op[0]).(*Chan)
		if ch != nil && (len(ch.buf) < ch.cap || m.inGo > 0) {
			ch.buf = append(ch.buf, m.get(fr, ci.op[1]))
			return
		}
		m.unsupported("blocking send")
	case *ssa.Select:
		fr.locals[ci.dst] = m.selectStmt(fr, ci, in)
	default:
		m.unsupported("instruction %T %v", in, in)
	}
}

func (m *Machine) selectStmt(fr *frame, ci *cinstr, in *ssa.Select) Value {
	var recvZero []Value
	for _, st := range in.States {
		if st.Dir == types.RecvOnly {
			recvZero = append(recvZero, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	ri := 0
	k := 0
	for i, st := range in.States {
		ch := m.get(fr, ci.op[k]).(*Chan)
		k++
		if st.Dir == types.SendOnly {
			k++
			if ch != nil && len(ch.buf) < ch.cap {
				m.unsupported("select send")
			}
			continue
		}
		if ch != nil && (len(ch.buf) > 0 || ch.closed) {
			ok := len(ch.buf) > 0
			if ok {
				recvZero[ri] = ch.buf[0]
				ch.buf = ch.buf[1:]
			}
			return append(Tuple{mkConst(64, uint64(i)), mkBool(ok)}, recvZero...)
		}
		ri++
	}
	if in.Blocking {
		m.unsupported("blocking select")
	}
	return append(Tuple{mkConst(64, ^uint64(0)), falseT}, recvZero...)
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(m *Machine) Value {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{falseT, mkConst(64, 0), mkConst(32, 0)}
	}
	i := it.i
	if s, ok := it.s.(string); ok {
		r, sz := utf8.DecodeRuneInString(s[i:])
		it.i += sz
		return Tuple{trueT, mkConst(64, uint64(i)), mkConst(32, uint64(r))}
	}
	r, sz := m.decodeRune(strBytes(it.s)[i:])
	it.i += sz
	return Tuple{trueT, mkConst(64, uint64(i)), r}
}

// decodeRune decodes one UTF-8 sequence, forking on its class.
func (m *Machine) decodeRune(b []*Term) (*Term, int) {
	c0 := b[0]
	if m.branch(m.tt.Bin(OUlt, c0, mkConst(8, 0x80))) {
		return m.tt.ZExt(c0, 32), 1
	}
	rng := func(t *Term, lo, hi uint64) *Term {
		return m.tt.And(m.tt.Bin(OUle, mkConst(8, lo), t), m.tt.Bin(OUle, t, mkConst(8, hi)))
	}
	errR := mkConst(32, 0xFFFD)
	low := func(t *Term, mk uint64, sh uint64) *Term {
		return m.tt.Bin(OShl, m.tt.ZExt(m.tt.Bin(OBAnd, t, mkConst(8, mk)), 32), mkConst(32, sh))
	}
	or := func(x ...*Term) *Term {
		r := x[0]
		for _, y := range x[1:] {
			r = m.tt.Bin(OBOr, r, y)
		}
		return r
	}
	if m.branch(m.tt.Or(m.tt.Bin(OUlt, c0, mkConst(8, 0xC2)), m.tt.Bin(OUlt, mkConst(8, 0xF4), c0))) {
		return errR, 1
	}
	if m.branch(m.tt.Bin(OUlt, c0, mkConst(8, 0xE0))) {
		if len(b) < 2 || !m.branch(rng(b[1], 0x80, 0xBF)) {
			return errR, 1
		}
		return or(low(c0, 0x1F, 6), low(b[1], 0x3F, 0)), 2
	}
	if m.branch(m.tt.Bin(OUlt, c0, mkConst(8, 0xF0))) {
		if len(b) < 3 {
			return errR, 1
		}
		lo := m.tt.Ite(m.tt.Eq(c0, mkConst(8, 0xE0)), mkConst(8, 0xA0), mkConst(8, 0x80))
		hi := m.tt.Ite(m.tt.Eq(c0, mkConst(8, 0xED)), mkConst(8, 0x9F), mkConst(8, 0xBF))
		ok := m.tt.And(m.tt.And(m.tt.Bin(OUle, lo, b[1]), m.tt.Bin(OUle, b[1], hi)), rng(b[2], 0x80, 0xBF))
		if !m.branch(ok) {
			return errR, 1
		}
		return or(low(c0, 0x0F, 12), low(b[1], 0x3F, 6), low(b[2], 0x3F, 0)), 3
	}
	if len(b) < 4 {
		return errR, 1
	}
	lo := m.tt.Ite(m.tt.Eq(c0, mkConst(8, 0xF0)), mkConst(8, 0x90), mkConst(8, 0x80))
	hi := m.tt.Ite(m.tt.Eq(c0, mkConst(8, 0xF4)), mkConst(8, 0x8F), mkConst(8, 0xBF))
	ok := m.tt.And(m.tt.And(m.tt.Bin(OUle, lo, b[1]), m.tt.Bin(OUle, b[1], hi)), m.tt.And(rng(b[2], 0x80, 0xBF), rng(b[3], 0x80, 0xBF)))
	if !m.branch(ok) {
		return errR, 1
	}
	return or(low(c0, 0x07, 18), low(b[1], 0x3F, 12), low(b[2], 0x3F, 6), low(b[3], 0x3F, 0)), 4
}

func (m *Machine) throwErr(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{Iface{t: m.eng.runtimeErrorT, v: msg}})
}

// index checks bounds and returns a concrete index.
func (m *Machine) index(it *Term, n int, t types.Type) int {
	_, signed, _ := intInfo(t)
	if it.op == OConst {
		var i int64
		if signed {
			i = sext(it.val, it.w)
		} else {
			i = int64(it.val)
		}
		if i < 0 || i >= int64(n) {
			m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	m.boundsCheck(it, n, signed)
	v := m.concretize(it)
	return int(v)
}

func (m *Machine) boundsCheck(it *Term, n int, signed bool) {
	x := it
	if it.w < 64 {
		if signed {
			x = m.tt.SExt(it, 64)
		} else {
			x = m.tt.ZExt(it, 64)
		}
	}
	if !m.branch(m.tt.Bin(OUlt, x, mkConst(64, uint64(n)))) {
		m.runtimePanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
}

func (m *Machine) strIndex(x Value, it *Term, t types.Type) Value {
	if it.op != OConst {
		_, signed, _ := intInfo(t)
		b := strBytes(x)
		m.boundsCheck(it, len(b), signed)
		vals := make([]*Term, len(b))
		copy(vals, b)
		return m.selectTerm(vals, it)
	}
	i := m.index(it, strLen(x), t)
	switch x := x.(type) {
	case string:
		return byteConsts[x[i]]
	case *SymStr:
		return x.b[i]
	}
	panic("strIndex")
}

// symRead handles IndexAddr with a symbolic index when the address is only loaded.
func (m *Machine) symRead(in *ssa.IndexAddr, arr []Value, it *Term) (Value, bool) {
	for _, r := range *in.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return nil, false
			}
		case *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return m.symReadVals(arr, it, in.Index.Type())
}

func (m *Machine) symReadVals(arr []Value, it *Term, t types.Type) (Value, bool) {
	if len(arr) == 0 || len(arr) > 300 {
		return nil, false
	}
	vals := make([]*Term, len(arr))
	for i, v := range arr {
		x, ok := v.(*Term)
		if !ok {
			return nil, false
		}
		vals[i] = x
	}
	_, signed, _ := intInfo(t)
	m.boundsCheck(it, len(arr), signed)
	return m.selectTerm(vals, it), true
}

func (m *Machine) selectTerm(vals []*Term, it *Term) *Term {
	tt := m.tt
	// group runs of equal values
	cnt := map[*Term]int{}
	best := vals[0]
	for _, v := range vals {
		cnt[v]++
		if cnt[v] > cnt[best] {
			best = v
		}
	}
	conds := map[*Term]*Term{}
	var order []*Term
	for i := 0; i < len(vals); {
		j := i
		for j+1 < len(vals) && sameTerm(vals[j+1], vals[i]) {
			j++
		}
		if !sameTerm(vals[i], best) {
			var c *Term
			lo, hi := mkConst(it.w, uint64(i)), mkConst(it.w, uint64(j))
			if i == j {
				c = tt.Eq(it, lo)
			} else {
				c = tt.And(tt.Bin(OUle, lo, it), tt.Bin(OUle, it, hi))
			}
			if o, ok := conds[vals[i]]; ok {
				conds[vals[i]] = tt.Or(o, c)
			} else {
				conds[vals[i]] = c
				order = append(order, vals[i])
			}
		}
		i = j + 1
	}
	r := best
	for _, v := range order {
		r = tt.Ite(conds[v], v, r)
	}
	return r
}

func (m *Machine) slice(fr *frame, ci *cinstr, in *ssa.Slice) Value {
	x := m.get(fr, ci.op[0])
	var lo, hi, max = 0, -1, -1
	if in.Low != nil {
		lo = m.concInt(m.get(fr, ci.op[1]))
	}
	if in.High != nil {
		hi = m.concInt(m.get(fr, ci.op[2]))
	}
	if in.Max != nil {
		max = m.concInt(m.get(fr, ci.op[3]))
	}
	oob := func(n int) {
		m.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, n))
	}
	switch x := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		if in.High == nil {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			oob(n)
		}
		return strSlice(x, lo, hi)
	case []Value:
		if in.High == nil {
			hi = len(x)
		}
		if in.Max == nil {
			max = cap(x)
		}
		if lo < 0 || hi < lo || max < hi || max > cap(x) {
			oob(cap(x))
		}
		return x[lo:hi:max]
	case *Value:
		if x == nil {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		a := []Value((*x).(Array))
		if in.High == nil {
			hi = len(a)
		}
		if in.Max == nil {
			max = len(a)
		}
		if lo < 0 || hi < lo || max < hi || max > len(a) {
			oob(len(a))
		}
		return a[lo:hi:max]
	}
	panic(fmt.Sprintf("slice %T", x))
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if x.t == m.eng.runtimeErrorT {
				ok = it.NumMethods() == 0 || in.AssertedType.String() == "error"
			} else {
				ok = m.eng.implements(x.t, it)
			}
			v = x
		} else {
			ok = m.sameType(x.t, in.AssertedType)
			v = x.v
		}
	}
	if in.CommaOk {
		if !ok {
			v = zero(in.AssertedType)
		}
		return Tuple{v, mkBool(ok)}
	}
	if !ok {
		m.runtimePanic(fmt.Sprintf("interface conversion: %v is not %v", x.t, in.AssertedType))
	}
	return v
}

func (m *Machine) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return m.eqOp(x, y)
	case token.NEQ:
		return m.tt.Not(m.eqOp(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		_, signed, _ := intInfo(t)
		switch op {
		case token.ADD:
			return m.tt.Bin(OAdd, a, b)
		case token.SUB:
			return m.tt.Bin(OSub, a, b)
		case token.MUL:
			return m.tt.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if m.branch(m.tt.Eq(b, mkConst(b.w, 0))) {
				m.runtimePanic("integer divide by zero")
			}
			o := map[bool]map[token.Token]Op{true: {token.QUO: OSDiv, token.REM: OSRem}, false: {token.QUO: OUDiv, token.REM: OURem}}[signed][op]
			if signed && b.op == OConst && sext(b.val, b.w) > 0 && a.op == OZExt {
				if o == OSDiv {
					o = OUDiv
				} else {
					o = OURem
				}
			}
			return m.tt.Bin(o, a, b)
		case token.AND:
			return m.tt.Bin(OBAnd, a, b)
		case token.OR:
			return m.tt.Bin(OBOr, a, b)
		case token.XOR:
			return m.tt.Bin(OBXor, a, b)
		case token.AND_NOT:
			return m.tt.Bin(OBAnd, a, m.tt.BNot(b))
		case token.SHL, token.SHR:
			_, ys, _ := intInfo(yt)
			if ys && b.op != OConst {
				if m.branch(m.tt.Bin(OSlt, b, mkConst(b.w, 0))) {
					m.runtimePanic("negative shift amount")
				}
			} else if ys && sext(b.val, b.w) < 0 {
				m.runtimePanic("negative shift amount")
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if signed {
					o = OAShr
				}
			}
			var sh *Term
			if b.w == a.w {
				sh = b
			} else if b.w < a.w {
				sh = m.tt.ZExt(b, a.w)
			} else if b.op == OConst {
				v := b.val
				if v > uint64(a.w) {
					v = uint64(a.w)
				}
				sh = mkConst(a.w, v)
			} else {
				big := m.tt.Bin(OUle, mkConst(b.w, uint64(a.w)), b)
				sh = m.tt.Ite(big, mkConst(a.w, uint64(a.w)), m.tt.Trunc(b, a.w))
			}
			return m.tt.Bin(o, a, sh)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			o := OUlt
			if op == token.LEQ || op == token.GEQ {
				o = OUle
				if signed {
					o = OSle
				}
			} else if signed {
				o = OSlt
			}
			return m.tt.Bin(o, a, b)
		}
	case float64:
		b := y.(float64)
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(a + b)
		case token.SUB:
			return r(a - b)
		case token.MUL:
			return r(a * b)
		case token.QUO:
			return r(a / b)
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strCat(x, y)
		default:
			return m.strCmp(op.String(), x, y)
		}
	}
	m.unsupported("binop %v on %T", op, x)
	return nil
}

func (m *Machine) eqOp(x, y Value) *Term {
	// slices, maps, funcs compare only with nil
	switch a := x.(type) {
	case []Value:
		b, _ := y.([]Value)
		return mkBool(a == nil && b == nil)
	case *Closure, *NatFunc:
		return falseT
	case *ssa.Function:
		if b, ok := y.(*ssa.Function); ok {
			return mkBool(a == nil && b == nil)
		}
		return falseT
	}
	return m.equal(x, y)
}

func (m *Machine) convert(dst, src types.Type, x Value) Value {
	ud, us := dst.Underlying(), src.Underlying()
	if dw, _, ok := intInfo(ud); ok && dw > 0 {
		switch v := x.(type) {
		case *Term:
			_, ss, _ := intInfo(us)
			if dw <= v.w {
				return m.tt.Trunc(v, dw)
			}
			if ss {
				return m.tt.SExt(v, dw)
			}
			return m.tt.ZExt(v, dw)
		case float64:
			_, sg, _ := intInfo(ud)
			if sg {
				return mkConst(dw, uint64(int64(v)))
			}
			return mkConst(dw, uint64(v))
		case *Value: // unsafe.Pointer -> uintptr
			m.unsupported("pointer to uintptr")
		}
	}
	switch d := ud.(type) {
	case *types.Basic:
		switch d.Kind() {
		case types.String:
			switch v := x.(type) {
			case string, *SymStr:
				return v
			case *Term:
				_, sg, _ := intInfo(us)
				var t *Term
				if v.w >= 32 {
					if v.op == OConst {
						if sg {
							return string(rune(sext(v.val, v.w)))
						}
						return string(rune(v.val))
					}
					t = v
				} else {
					t = m.tt.ZExt(v, 32)
					if t.op == OConst {
						return string(rune(t.val))
					}
				}
				return mkStr(m.encodeRune(t))
			case []Value:
				if us.(*types.Slice).Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					return mkStr(sliceToBytes(v))
				}
				var out []*Term
				for _, e := range v {
					t := e.(*Term)
					if t.op == OConst {
						out = append(out, strBytes(string(rune(sext(t.val, t.w))))...)
					} else {
						out = append(out, m.encodeRune(t)...)
					}
				}
				return mkStr(out)
			}
		case types.Float32, types.Float64:
			switch v := x.(type) {
			case float64:
				if d.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				if v.op != OConst {
					m.unsupported("symbolic int to float")
				}
				_, sg, _ := intInfo(us)
				if sg {
					return float64(sext(v.val, v.w))
				}
				return float64(v.val)
			}
		case types.Complex64, types.Complex128:
			return x
		case types.UnsafePointer:
			if _, ok := x.(*Value); ok {
				return x
			}
		}
	case *types.Slice:
		switch x.(type) {
		case string, *SymStr:
			if d.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return bytesToSlice(strBytes(x))
			}
			r := []Value{}
			it := &strIter{s: x}
			for {
				t := it.next(m).(Tuple)
				if t[0].(*Term).isFalse() {
					break
				}
				r = append(r, t[2])
			}
			return r
		case []Value:
			return x
		}
	case *types.Pointer:
		if p, ok := x.(*Value); ok {
			return p
		}
	case *types.Array:
		if s, ok := x.([]Value); ok {
			if len(s) < int(d.Len()) {
				m.runtimePanic("cannot convert slice to array")
			}
			return copyVal(Array(s[:d.Len()]))
		}
	}
	if _, ok := x.(*Term); ok {
		m.unsupported("convert %v -> %v", src, dst)
	}
	return x
}

func (m *Machine) encodeRune(t *Term) []*Term {
	tt := m.tt
	t8 := func(x *Term) *Term { return tt.Trunc(x, 8) }
	if t.w > 32 {
		t = tt.Trunc(t, 32)
	}
	c := func(v uint64) *Term { return mkConst(32, v) }
	cont := func(sh uint64) *Term {
		return t8(tt.Bin(OBOr, c(0x80), tt.Bin(OBAnd, tt.Bin(OLShr, t, c(sh)), c(0x3F))))
	}
	if m.branch(tt.Bin(OUlt, t, c(0x80))) {
		return []*Term{t8(t)}
	}
	if m.branch(tt.Bin(OUlt, t, c(0x800))) {
		return []*Term{t8(tt.Bin(OBOr, c(0xC0), tt.Bin(OLShr, t, c(6)))), cont(0)}
	}
	if m.branch(tt.Or(tt.Bin(OUlt, c(0x10FFFF), t), tt.And(tt.Bin(OUle, c(0xD800), t), tt.Bin(OUle, t, c(0xDFFF))))) {
		return strBytes("\uFFFD")
	}
	if m.branch(tt.Bin(OUlt, t, c(0x10000))) {
		return []*Term{t8(tt.Bin(OBOr, c(0xE0), tt.Bin(OLShr, t, c(12)))), cont(6), cont(0)}
	}
	return []*Term{t8(tt.Bin(OBOr, c(0xF0), tt.Bin(OLShr, t, c(18)))), cont(12), cont(6), cont(0)}
}

func (m *Machine) builtin(b *ssa.Builtin, args []Value, ci *cinstr) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return mkConst(64, uint64(strLen(x)))
		case []Value:
			return mkConst(64, uint64(len(x)))
		case *Map:
			if x == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(x.n))
		case Array:
			return mkConst(64, uint64(len(x)))
		case *Value:
			return mkConst(64, uint64(len((*x).(Array))))
		case *Chan:
			if x == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return mkConst(64, uint64(cap(x)))
		case Array:
			return mkConst(64, uint64(len(x)))
		case *Value:
			return mkConst(64, uint64(len((*x).(Array))))
		case *Chan:
			return mkConst(64, uint64(x.cap))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]Value)
		var add []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			add = bytesToSlice(strBytes(y))
		case []Value:
			add = y
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) > cap(s) {
			// Go-like growth; the exact capacity is unspecified by the language
			nc := 2 * cap(s)
			if nc < len(s)+len(add) {
				nc = len(s) + len(add)
			}
			if nc < 4 {
				nc = 4
			}
			if nc > 1<<23 {
				panic(pathEnd{endSteps, "memory" + m.where()})
			}
			ns := make([]Value, len(s), nc)
			copy(ns, s)
			full := ns[:nc]
			var z Value
			if in, ok := ci.in.(ssa.Value); ok {
				z = zero(in.Type().Underlying().(*types.Slice).Elem())
			}
			for i := len(s) + len(add); i < nc; i++ {
				full[i] = copyVal(z)
			}
			s = ns
		}
		n := len(s)
		s = s[:n+len(add)]
		tmp := make([]Value, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			s[n+i] = v
		}
		return s
	case "copy":
		d := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			src = bytesToSlice(strBytes(y))
		case []Value:
			src = y
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&d[i], tmp[i])
		}
		return mkConst(64, uint64(n))
	case "delete":
		mp := args[0].(*Map)
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		return Tuple{}
	case "close":
		args[0].(*Chan).closed = true
		return Tuple{}
	case "recover":
		// called from a deferred function: the panicking frame is the caller's caller
		f := m.fr
		if f != nil && f.caller != nil && f.caller.panicV != nil {
			p := f.caller.panicV
			f.caller.panicV = nil
			return p.v
		}
		return Iface{}
	case "panic":
		panic(targetPanic{args[0]})
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			in := ci.in.(ssa.Value)
			lt := m.binop(token.LSS, in.Type(), y, r, in.Type()).(*Term)
			if b.Name() == "max" {
				lt = m.binop(token.LSS, in.Type(), r, y, in.Type()).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = m.tt.Ite(lt, y.(*Term), rt)
			} else if m.branch(lt) {
				r = y
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				*x = *newMap()
			}
		}
		return Tuple{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(*Value)
		n := m.concInt(args[1])
		if n == 0 {
			return ""
		}
		if s, ok := m.sliceOf[p]; ok && len(s) >= n {
			return mkStr(sliceToBytes(s[:n]))
		}
		m.unsupported("unsafe.String")
	case "SliceData":
		s := args[0].([]Value)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		p := &s[:1][0]
		if m.sliceOf == nil {
			m.sliceOf = map[*Value][]Value{}
		}
		m.sliceOf[p] = s[:cap(s)]
		return p
	case "StringData":
		s := bytesToSlice(strBytes(args[0]))
		if len(s) == 0 {
			return (*Value)(nil)
		}
		p := &s[0]
		if m.sliceOf == nil {
			m.sliceOf = map[*Value][]Value{}
		}
		m.sliceOf[p] = s
		return p
	case "Slice":
		p := args[0].(*Value)
		n := m.concInt(args[1])
		if p == nil {
			return []Value(nil)
		}
		if s, ok := m.sliceOf[p]; ok && len(s) >= n {
			return s[:n:n]
		}
		m.unsupported("unsafe.Slice")
	case "real", "imag", "complex":
		m.unsupported("complex")
	}
	m.unsupported("builtin %s %T", b.Name(), args[0])
	return nil
}

func (m *Machine) anySym(args []Value) bool {
	for _, a := range args {
		switch t := a.(type) {
		case *Term:
			if t.op != OConst {
				return true
			}
		case *SymStr:
			return true
		}
	}
	return false
}

type specAbort struct{}
