package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/datawire/ocibuild"

var z3Path = "z3-new"
var solverGenMu sync.Mutex

type Engine struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	cfns      sync.Map
	implCache sync.Map
	methCache sync.Map
	ssaMu     sync.Mutex
	overrides map[string]*ssa.Function

	initMu    sync.Mutex
	initM     *Machine
	initDone  map[*ssa.Package]bool
	initNotes []string

	runtimeErrorT types.Type
	maxDepth      int
	maxSteps      int64
}

type Item struct {
	prefix []Dec
	model  map[int]uint64
}

type Stats struct {
	paths, done, assumed, unsupported, steps, depth, viol, infeasible, stopped int64
	asserts, assertsTriv, assertsSolver, inconcl                               int64
	domain, unknown, merges, instrs                                            int64
}

func (s *Stats) add(o *Stats) {
	s.paths += o.paths
	s.done += o.done
	s.assumed += o.assumed
	s.unsupported += o.unsupported
	s.steps += o.steps
	s.depth += o.depth
	s.viol += o.viol
	s.infeasible += o.infeasible
	s.stopped += o.stopped
	s.asserts += o.asserts
	s.assertsTriv += o.assertsTriv
	s.assertsSolver += o.assertsSolver
	s.inconcl += o.inconcl
	s.domain += o.domain
	s.unknown += o.unknown
	s.merges += o.merges
	s.instrs += o.instrs
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert | panic | hang
	Inputs  []uint64
	Detail  string
}

type Witness struct {
	Inputs []uint64
	Kind   string
	Obs    []string
}

// Run explores one harness.
type Run struct {
	eng      *Engine
	harness  string
	fn       *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*Item
	active   int
	stop     atomic.Bool
	deadline time.Time
	timedOut bool
	left     int

	stats      Stats
	violations []Violation
	seenMsg    map[string]int
	reached    map[string]int64
	unsup      map[string]int64
	incon      map[string]int64
	covered    map[string]int64
	witnesses  []Witness
	nWit       int
	queries    int64
	sat, unsat int64
	unk        int64
	solverTime time.Duration
	solverErrs []string
	maxViol    int
	maxPaths   int64
	pathCount  atomic.Int64
	progress   bool
}

type Worker struct {
	run    *Run
	tt     *TermTable
	solver *Solver
	stats  Stats
	local  []*Item
	pure   map[*cfn]*pureStat
	cov    map[*cfn]int64
}

func (w *Worker) push(it *Item) { w.local = append(w.local, it) }
func (w *Worker) cover(cf *cfn) { w.cov[cf]++ }

func (w *Worker) violation(m *Machine, msg string, mod Model) {
	v := Violation{Harness: w.run.harness, Msg: msg, Kind: "assert", Inputs: m.inputVals(mod)}
	if msg != "" && msg[0] == '!' {
		v.Kind = "panic"
	}
	if msg != "" && msg[0] == '~' {
		v.Kind = "hang"
	}
	w.run.mu.Lock()
	defer w.run.mu.Unlock()
	w.stats.viol++
	w.run.seenMsg[msg]++
	if w.run.seenMsg[msg] <= 6 {
		w.run.violations = append(w.run.violations, v)
	}
	if len(w.run.violations) >= w.run.maxViol {
		w.run.stop.Store(true)
		w.run.cond.Broadcast()
	}
}
func (w *Worker) inconclusive(m *Machine, msg string) {
	w.stats.inconcl++
	w.run.mu.Lock()
	w.run.incon[msg]++
	w.run.mu.Unlock()
}

func (m *Machine) inputVals(mod Model) []uint64 {
	r := make([]uint64, len(m.inputs))
	for i, in := range m.inputs {
		r[i] = evalTerm(in.t, mod)
	}
	return r
}

func loadProgram(overlay map[string][]byte, patterns []string) (*Engine, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: overlay,
		Env:     os.Environ(),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load errors: %v", errs)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, overrides: map[string]*ssa.Function{}, initDone: map[*ssa.Package]bool{},
		maxDepth: 600, maxSteps: 20_000_000}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.runtimeErrorT = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.Typ[types.String], nil)
	e.initM = e.newMachine(nil, nil)
	e.initM.isInit = true
	return e, nil
}

func (e *Engine) newMachine(w *Worker, it *Item) *Machine {
	m := &Machine{eng: e, w: w, globals: map[*ssa.Global]*Value{}, memo: map[interface{}]interface{}{},
		dom: map[*Term]*[4]uint64{}, multi: map[*Term]bool{}, model: Model{}, reached: map[string]bool{}}
	if w != nil {
		m.tt = w.tt
	} else {
		m.tt = newTermTable()
		m.w = &Worker{run: &Run{}, pure: map[*cfn]*pureStat{}, cov: map[*cfn]int64{}, tt: m.tt}
	}
	if it != nil {
		m.prefix = it.prefix
		if it.model != nil {
			for k, v := range it.model {
				m.model[m.tt.mk(OVar, uint8(k&255), uint64(k), nil, nil, nil)] = v
			}
			m.modelOK = true
		}
	} else {
		m.modelOK = true
	}
	return m
}

var noInit = map[string]bool{"runtime": true, "syscall": true, "os": true, "net": true, "internal/poll": true, "os/signal": true,
	"os/user": true, "internal/cpu": true, "internal/testlog": true, "runtime/debug": true, "reflect": true, "testing": true, "log": true,
	"crypto/tls": true, "crypto/x509": true, "golang.org/x/sys/unix": true, "vendor/golang.org/x/sys/cpu": true, "golang.org/x/sys/cpu": true,
	"crypto/elliptic": true, "crypto/internal/nistec": true, "crypto/internal/boring": true, "crypto/internal/boring/sig": true, "encoding/gob": true, "k8s.io/klog/v2": true, "math/rand": true, "crypto/rand": true, "internal/godebug": true}

func (m *Machine) globalAddr(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	e := m.eng
	if g.Pkg.Pkg.Path() == "os" {
		switch g.Name() {
		case "ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed":
			if fp := e.prog.ImportedPackage("io/fs"); fp != nil {
				if fg, ok := fp.Members[g.Name()].(*ssa.Global); ok {
					p := m.globalAddr(fg)
					m.globals[g] = p
					return p
				}
			}
		}
	}
	if m.isInit {
		p := new(Value)
		*p = zero(deref(g.Type()))
		m.globals[g] = p
		e.initPkg(g.Pkg)
		return p
	}
	e.initMu.Lock()
	defer e.initMu.Unlock()
	src := e.initM.globalAddr(g)
	p, ok := m.memo[src].(*Value)
	if !ok {
		p = new(Value)
		m.memo[src] = p
		if sharedPkg[g.Pkg.Pkg.Path()] {
			*p = *src
		} else {
			*p = m.deepCopyInner(*src)
			m.linkInterior(src, p)
		}
	}
	m.globals[g] = p
	return p
}

var sharedPkg = map[string]bool{"unicode": true, "golang.org/x/net/html": true, "golang.org/x/net/html/atom": true, "unicode/utf8": true, "strconv": true, "golang.org/x/net/html/charset": true, "math": true, "html": true, "hash/crc32": true}

// ensureInit lets inits with registration side effects run early.
func (e *Engine) initPkg(p *ssa.Package) {
	if e.initDone[p] || p == nil {
		return
	}
	e.initDone[p] = true
	if noInit[p.Pkg.Path()] {
		return
	}
	// allocate every global first
	f := p.Func("init")
	if f == nil {
		return
	}
	m := e.initM
	save, d := m.fr, m.depth
	m.fr = nil
	m.depth = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				e.initNotes = append(e.initNotes, fmt.Sprintf("init %s aborted: %v", p.Pkg.Path(), r))
			}
		}()
		m.callFn(f, nil, nil)
	}()
	m.fr, m.depth = save, d
}

func (m *Machine) linkInterior(src, dst *Value) {
	switch s := (*src).(type) {
	case Struct:
		d := (*dst).(Struct)
		for i := range s {
			m.memo[&s[i]] = &d[i]
			m.linkInterior(&s[i], &d[i])
		}
	case Array:
		d := (*dst).(Array)
		if len(s) > 64 {
			return
		}
		for i := range s {
			m.memo[&s[i]] = &d[i]
			m.linkInterior(&s[i], &d[i])
		}
	}
}

type sliceKey struct {
	p *Value
	c int
}

func (m *Machine) deepCopyInner(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = m.deepCopyInner(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = m.deepCopyInner(x[i])
		}
		return n
	case Tuple:
		n := make(Tuple, len(x))
		for i := range x {
			n[i] = m.deepCopyInner(x[i])
		}
		return n
	case *Value:
		if x == nil {
			return x
		}
		if p, ok := m.memo[x]; ok {
			return p.(*Value)
		}
		p := new(Value)
		m.memo[x] = p
		*p = m.deepCopyInner(*x)
		m.linkInterior(x, p)
		return p
	case []Value:
		if x == nil {
			return x
		}
		if cap(x) == 0 {
			return []Value{}
		}
		full := x[:cap(x)]
		k := sliceKey{&full[0], cap(x)}
		if s, ok := m.memo[k]; ok {
			return s.([]Value)[:len(x)]
		}
		n := make([]Value, cap(x))
		m.memo[k] = n
		for i := range full {
			n[i] = m.deepCopyInner(full[i])
		}
		return n[:len(x)]
	case *Map:
		if x == nil {
			return x
		}
		if p, ok := m.memo[x]; ok {
			return p.(*Map)
		}
		n := newMap()
		m.memo[x] = n
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			k := m.deepCopyInner(e.k)
			nv := new(Value)
			*nv = m.deepCopyInner(*e.v)
			ne := &mapEnt{k: k, v: nv}
			n.ents = append(n.ents, ne)
			n.n++
			if ks, conc := mapKey(k); conc {
				n.idx[ks] = ne
			}
		}
		return n
	case Iface:
		if x.t == nil {
			return x
		}
		return Iface{x.t, m.deepCopyInner(x.v)}
	case *Closure:
		if x == nil {
			return x
		}
		if p, ok := m.memo[x]; ok {
			return p.(*Closure)
		}
		n := &Closure{fn: x.fn}
		m.memo[x] = n
		for _, e := range x.env {
			n.env = append(n.env, m.deepCopyInner(e))
		}
		return n
	case *Chan:
		if x == nil {
			return x
		}
		c := *x
		return &c
	}
	return v
}

func (r *Run) worker(id int) {
	w := &Worker{run: r, tt: newTermTable(), solver: newSolver(), pure: map[*cfn]*pureStat{}, cov: map[*cfn]int64{}}
	defer func() {
		r.mu.Lock()
		r.stats.add(&w.stats)
		r.queries += w.solver.Queries
		r.sat += w.solver.Sat_
		r.unsat += w.solver.Unsat_
		r.unk += w.solver.Unk
		r.solverTime += w.solver.Time
		r.solverErrs = append(r.solverErrs, w.solver.Errs...)
		for cf, n := range w.cov {
			r.covered[cf.name] += n
		}
		r.mu.Unlock()
		w.solver.close()
	}()
	for {
		var it *Item
		if n := len(w.local); n > 0 {
			it = w.local[n-1]
			w.local = w.local[:n-1]
			// share work when others are idle
			if len(w.local) > 0 {
				r.mu.Lock()
				if len(r.queue) < 16 {
					k := len(w.local)/2 + 1
					if k > 8 {
						k = 8
					}
					r.queue = append(r.queue, w.local[:k]...)
					w.local = append([]*Item(nil), w.local[k:]...)
					r.cond.Broadcast()
				}
				r.mu.Unlock()
			}
		} else {
			r.mu.Lock()
			r.active--
			for len(r.queue) == 0 && r.active > 0 && !r.stop.Load() {
				r.cond.Wait()
			}
			if r.stop.Load() || (len(r.queue) == 0 && r.active == 0) {
				r.cond.Broadcast()
				r.left += len(r.queue)
				r.queue = nil
				r.mu.Unlock()
				return
			}
			it = r.queue[0]
			r.queue = r.queue[1:]
			r.active++
			r.mu.Unlock()
		}
		if r.stop.Load() || time.Now().After(r.deadline) {
			r.mu.Lock()
			if !r.stop.Load() {
				r.timedOut = true
				r.stop.Store(true)
			}
			r.left += 1 + len(w.local)
			w.local = nil
			r.active--
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		w.runPath(it)
		if len(w.tt.tab) > 400000 {
			w.tt = newTermTable()
			w.solver.restart()
		}
	}
}

func (w *Worker) runPath(it *Item) {
	r := w.run
	m := r.eng.newMachine(w, it)
	w.stats.paths++
	n := r.pathCount.Add(1)
	if r.maxPaths > 0 && n > r.maxPaths {
		r.mu.Lock()
		r.timedOut = true
		r.stop.Store(true)
		r.cond.Broadcast()
		r.mu.Unlock()
	}
	kind := endDone
	msg := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case pathEnd:
					kind, msg = x.kind, x.msg
				case targetPanic:
					kind = endViolation
					msg = "!uncaught panic: " + m.panicText(x)
					if m.ensureModelSafe() {
						w.violation(m, msg, m.model)
					} else {
						w.inconclusive(m, msg)
					}
				default:
					if debugPanics {
						panic(e)
					}
					kind = endUnsupported
					msg = fmt.Sprintf("engine: %v%s", e, m.where())
				}
			}
		}()
		m.callFn(r.fn, nil, nil)
	}()
	w.stats.instrs += m.steps
	switch kind {
	case endDone:
		w.stats.done++
	case endAssume:
		w.stats.assumed++
	case endUnsupported:
		w.stats.unsupported++
	case endSteps:
		w.stats.steps++
		if m.ensureModelSafe() {
			w.violation(m, "~"+msg, m.model)
		}
	case endDepth:
		w.stats.depth++
		if m.ensureModelSafe() {
			w.violation(m, "~"+msg, m.model)
		}
	case endInfeasible:
		w.stats.infeasible++
	case endStopped:
		w.stats.stopped++
		r.mu.Lock()
		r.left++
		r.mu.Unlock()
	}
	r.mu.Lock()
	if kind == endUnsupported {
		r.unsup[msg]++
	}
	for k := range m.reached {
		r.reached[k]++
	}
	r.mu.Unlock()
	if (kind == endDone || kind == endUnsupported) && m.ensureModelSafe() {
		// reservoir of witnesses for native replay
		r.mu.Lock()
		r.nWit++
		wt := Witness{Inputs: m.inputVals(m.model), Kind: map[endKind]string{endDone: "done", endUnsupported: "unsupported"}[kind], Obs: m.renderObs(m.model)}
		const cap = 400
		if len(r.witnesses) < cap {
			r.witnesses = append(r.witnesses, wt)
		} else {
			h := uint64(r.nWit)*0x9E3779B97F4A7C15 ^ uint64(seed)*0xBF58476D1CE4E5B9
			h ^= h >> 29
			if k := h % uint64(r.nWit); k < cap {
				r.witnesses[k] = wt
			}
		}
		r.mu.Unlock()
	}
}

func (m *Machine) ensureModelSafe() (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	return m.ensureModel()
}

func (e *Engine) explore(name string, fn *ssa.Function, budget time.Duration, nw int) *Run {
	r := &Run{eng: e, harness: name, fn: fn, deadline: time.Now().Add(budget), seenMsg: map[string]int{}, reached: map[string]int64{},
		unsup: map[string]int64{}, incon: map[string]int64{}, covered: map[string]int64{}, maxViol: 24}
	r.cond = sync.NewCond(&r.mu)
	r.queue = []*Item{{}}
	r.active = nw
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); r.worker(i) }(i)
	}
	done := make(chan bool)
	go func() {
		t := time.NewTicker(time.Second)
		tick := 0
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if time.Now().After(r.deadline) {
					r.mu.Lock()
					if !r.stop.Load() {
						r.timedOut = true
						r.stop.Store(true)
					}
					r.cond.Broadcast()
					r.mu.Unlock()
				}
				if tick++; verbose && tick%5 == 0 {
					fmt.Fprintf(os.Stderr, "  [%s] paths=%d\n", name, r.pathCount.Load())
				}
			}
		}
	}()
	wg.Wait()
	close(done)
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
