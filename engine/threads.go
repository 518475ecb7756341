package main

import (
	"golang.org/x/tools/go/ssa"
)

// Threads: nd.SymPar runs functions as threads whose interleaving is explored.
// Each thread is a coroutine; exactly one runs at a time.  A context switch can
// happen before every access of the repository's code to memory that it did not
// allocate in the same function, before every synchronisation, and before every
// call out of the repository's code.  Switches away from a thread that could go
// on are limited (the preemption bound); switches at a blocking operation or at
// the end of a thread are free.  Memory is sequentially consistent.

type thread struct {
	id     int
	fv     Value
	resume chan struct{}
	done   bool
	wait   func() bool // nil, or whether it can go on
	fr     *frame
	depth  int
	err    interface{} // what it panicked with
}

type sched struct {
	ts    []*thread
	cur   *thread
	left  int // preemptions left
	back  chan struct{}
	kill  bool
	want  *thread
	locks map[*Value]*lockState
}

type lockState struct {
	owner   *thread // of a writer
	held    bool
	readers int
}

type killed struct{}

func (m *Machine) par(bound int, fs []Value) {
	if m.sched != nil {
		m.unsupported("nested threads")
	}
	s := &sched{left: bound, back: make(chan struct{}), locks: m.locks}
	if s.locks == nil {
		s.locks = map[*Value]*lockState{}
		m.locks = s.locks
	}
	m.sched = s
	fr, depth := m.fr, m.depth
	for i, f := range fs {
		t := &thread{id: i, fv: f, resume: make(chan struct{}), fr: fr, depth: depth}
		s.ts = append(s.ts, t)
		go func() {
			<-t.resume
			defer func() {
				t.err = recover()
				t.done = true
				s.back <- struct{}{}
			}()
			if s.kill {
				return
			}
			m.call(t.fv, nil)
		}()
	}
	run := func(t *thread) {
		s.cur = t
		m.fr, m.depth = t.fr, t.depth
		t.resume <- struct{}{}
		<-s.back
	}
	end := func() {
		s.kill = true
		for _, t := range s.ts {
			if !t.done {
				run(t)
			}
		}
		m.sched = nil
		m.fr, m.depth = fr, depth
	}
	defer end()
	for {
		var en []*thread
		alive := false
		for _, t := range s.ts {
			alive = alive || !t.done
			if t.ready() {
				en = append(en, t)
			}
		}
		if !alive {
			return
		}
		if len(en) == 0 {
			panic(pathEnd{endSteps, "deadlock"})
		}
		t := en[m.choose(len(en))]
		for t != nil {
			t.wait = nil
			s.want = nil
			run(t)
			if t.err != nil {
				panic(t.err)
			}
			t = s.want
		}
	}
}

func (t *thread) ready() bool { return !t.done && (t.wait == nil || t.wait()) }

// handOver gives control to the scheduler until this thread is resumed.
func (m *Machine) handOver() {
	s := m.sched
	t := s.cur
	t.fr, t.depth = m.fr, m.depth
	s.back <- struct{}{}
	<-t.resume
	if s.kill {
		panic(killed{})
	}
}

// yield is a place where another thread may run.
func (m *Machine) yield() {
	s := m.sched
	if s == nil || s.left == 0 || s.kill || m.spec > 0 {
		return
	}
	var o []*thread
	for _, t := range s.ts {
		if t != s.cur && t.ready() {
			o = append(o, t)
		}
	}
	if len(o) == 0 {
		return
	}
	k := m.choose(1 + len(o))
	if k == 0 {
		return
	}
	s.left--
	s.want = o[k-1]
	m.handOver()
}

// block waits until ok.
func (m *Machine) block(ok func() bool) {
	for !ok() {
		s := m.sched
		if s == nil || s.kill {
			if s != nil {
				panic(killed{})
			}
			panic(pathEnd{endSteps, "deadlock" + m.where()})
		}
		s.cur.wait = ok
		s.want = nil
		m.handOver()
	}
}

// tracked reports whether a synchronisation is that of code under test.
func (m *Machine) tracked() bool {
	if m.isInit || m.fr == nil {
		return false
	}
	if m.sched != nil {
		return true
	}
	return m.fr.cf.inRepo
}

func (m *Machine) lockOf(p *Value) *lockState {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.locks == nil {
		m.locks = map[*Value]*lockState{}
	}
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
		m.locks[p] = l
	}
	return l
}

func init() {
	lock := func(m *Machine, a []Value) Value {
		if m.tracked() {
			m.yield()
			l := m.lockOf(a[0].(*Value))
			m.block(func() bool { return !l.held && l.readers == 0 })
			l.held = true
		}
		return Tuple{}
	}
	unlock := func(m *Machine, a []Value) Value {
		if m.tracked() {
			l := m.lockOf(a[0].(*Value))
			if !l.held {
				m.throwErr("fatal error: sync: unlock of unlocked mutex")
			}
			l.held = false
			m.yield()
		}
		return Tuple{}
	}
	externals["(*sync.Mutex).Lock"] = lock
	externals["(*sync.Mutex).Unlock"] = unlock
	externals["(*sync.RWMutex).Lock"] = lock
	externals["(*sync.RWMutex).Unlock"] = unlock
	externals["(*sync.RWMutex).RLock"] = func(m *Machine, a []Value) Value {
		if m.tracked() {
			m.yield()
			l := m.lockOf(a[0].(*Value))
			m.block(func() bool { return !l.held })
			l.readers++
		}
		return Tuple{}
	}
	externals["(*sync.RWMutex).RUnlock"] = func(m *Machine, a []Value) Value {
		if m.tracked() {
			l := m.lockOf(a[0].(*Value))
			if l.readers == 0 {
				m.throwErr("fatal error: sync: RUnlock of unlocked RWMutex")
			}
			l.readers--
			m.yield()
		}
		return Tuple{}
	}
	externals["(*sync.Mutex).TryLock"] = func(m *Machine, a []Value) Value {
		if m.tracked() {
			m.yield()
			l := m.lockOf(a[0].(*Value))
			if l.held {
				return falseT
			}
			l.held = true
		}
		return trueT
	}
	// 0 new, 1 done, 2 running
	externals["(*sync.Once).Do"] = func(m *Machine, a []Value) Value {
		m.yield()
		s := (*a[0].(*Value)).(Struct)
		st := func() uint64 { return s[0].(*Term).val }
		if st() == 2 {
			m.block(func() bool { return st() == 1 })
		}
		if st() == 0 {
			s[0] = mkConst(32, 2)
			func() {
				defer func() { s[0] = mkConst(32, 1) }()
				m.call(a[1], nil)
			}()
			m.yield()
		}
		return Tuple{}
	}
}

// shared reports whether an address may be known to another thread.
func shared(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeSlice, *ssa.Alloc:
			return false
		default:
			return true
		}
	}
}

// access is called for each instruction of the repository's code in thread mode.
func (m *Machine) access(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "*" && shared(x.X) {
			m.yield()
		}
	case *ssa.Store:
		if shared(x.Addr) {
			m.yield()
		}
	case *ssa.Lookup, *ssa.MapUpdate, *ssa.Next:
		m.yield()
	}
}
