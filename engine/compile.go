package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type cinstr struct {
	in  ssa.Instruction
	dst int32
	op  []int32 // operand slots (>=0 local, <0 ^const)
	aux interface{}
}
type cphi struct {
	dst   int32
	edges []int32
}
type cblock struct {
	phis   []cphi
	instrs []cinstr
	succ   []int
	preds  []int
	pure   bool // no side effects, may be speculated
	b      *ssa.BasicBlock
}
type cfn struct {
	fn       *ssa.Function
	name     string
	n        int
	consts   []interface{} // Value, or *ssa.Global
	blocks   []cblock
	hasDefer bool
	inRepo   bool
	isInit   bool
	ext      func(m *Machine, args []Value) Value
	over     *ssa.Function
	pureFn   bool // whole function can be evaluated by merging
	pureDone bool
	nd       string // nondet primitive name
	once     sync.Once
	merge    []mergeInfo
}

// logging has no observable effect on results
var noopPkg = map[string]bool{"github.com/datawire/dlib/dlog": true, "k8s.io/klog/v2": true}

type globalRef struct{ g *ssa.Global }

func (e *Engine) getFn(fn *ssa.Function) *cfn {
	if c, ok := e.cfns.Load(fn); ok {
		cf := c.(*cfn)
		cf.once.Do(func() { e.compile(cf) })
		return cf
	}
	c, _ := e.cfns.LoadOrStore(fn, &cfn{fn: fn})
	cf := c.(*cfn)
	cf.once.Do(func() { e.compile(cf) })
	return cf
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) compile(cf *cfn) {
	fn := cf.fn
	cf.name = fnName(fn)
	if fn.Pkg != nil {
		pp := fn.Pkg.Pkg.Path()
		if strings.HasPrefix(pp, modPath) && !strings.Contains(pp, "zz_verif") {
			cf.inRepo = true
		}
		if strings.HasSuffix(pp, "zz_verif/nd") && fn.Parent() == nil && strings.HasPrefix(fn.Name(), "Sym") {
			cf.nd = fn.Name()
			return
		}
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pp := fn.Object().Pkg().Path()
		cf.inRepo = strings.HasPrefix(pp, modPath) && !strings.Contains(pp, "zz_verif")
	}
	for p := fn.Parent(); p != nil; p = p.Parent() {
		if p.Pkg != nil {
			pp := p.Pkg.Pkg.Path()
			cf.inRepo = strings.HasPrefix(pp, modPath) && !strings.Contains(pp, "zz_verif")
		}
	}
	if fn.Synthetic == "package initializer" {
		cf.isInit = true
	}
	if fn.Parent() == nil && fn.Pkg != nil && noopPkg[fn.Pkg.Pkg.Path()] && !cf.isInit {
		sig := fn.Signature
		cf.ext = func(m *Machine, args []Value) Value {
			switch sig.Results().Len() {
			case 0:
				return Tuple{}
			case 1:
				if types.Identical(sig.Results().At(0).Type(), sig.Params().At(0).Type()) && len(args) > 0 {
					return args[0] // context decorators
				}
				return zero(sig.Results().At(0).Type())
			}
			t := Tuple{}
			for i := 0; i < sig.Results().Len(); i++ {
				t = append(t, zero(sig.Results().At(i).Type()))
			}
			return t
		}
		return
	}
	if fn.Parent() == nil {
		if x, ok := externals[cf.name]; ok {
			cf.ext = x
			return
		}
		if o, ok := e.overrides[cf.name]; ok {
			if o != fn {
				cf.over = o
				return
			}
		}
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		return
	}
	nums := map[ssa.Value]int32{}
	var n int32
	for _, p := range fn.Params {
		nums[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		nums[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				nums[v] = n
				n++
			}
		}
	}
	cf.n = int(n)
	constIdx := map[interface{}]int32{}
	slot := func(v ssa.Value) int32 {
		if v == nil {
			return -1 << 30
		}
		if i, ok := nums[v]; ok {
			return i
		}
		if i, ok := constIdx[v]; ok {
			return i
		}
		var c interface{}
		switch v := v.(type) {
		case *ssa.Const:
			c = constVal(v)
		case *ssa.Global:
			c = globalRef{v}
		case *ssa.Function:
			c = v
		case *ssa.Builtin:
			c = v
		default:
			panic(fmt.Sprintf("slot %T", v))
		}
		cf.consts = append(cf.consts, c)
		i := ^int32(len(cf.consts) - 1)
		constIdx[v] = i
		return i
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		cb.b = b
		cb.pure = true
		for _, s := range b.Succs {
			cb.succ = append(cb.succ, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				p := cphi{dst: nums[ph]}
				for _, ed := range ph.Edges {
					p.edges = append(p.edges, slot(ed))
				}
				cb.phis = append(cb.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = nums[v]
			}
			switch in := in.(type) {
			case *ssa.Defer:
				cf.hasDefer = true
			case ssa.CallInstruction:
				_ = in
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				ci.op = append(ci.op, slot(cc.Value))
				for _, a := range cc.Args {
					ci.op = append(ci.op, slot(a))
				}
			} else {
				for _, op := range in.Operands(nil) {
					ci.op = append(ci.op, slot(*op))
				}
			}
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					cb.pure = false
				}
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Extract, *ssa.Slice, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.MultiConvert:
			case *ssa.Call:
				// may still be pure if the callee is (decided at run time)
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() != "len" && bi.Name() != "cap" {
						cb.pure = false
					}
				} else if in.Call.StaticCallee() == nil {
					cb.pure = false
				}
			default:
				cb.pure = false
			}
			if len(cb.instrs) > 24 {
				cb.pure = false
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
}

// implements reports (cached) whether t implements iface.
func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	type key struct {
		t types.Type
		i *types.Interface
	}
	k := key{t, i}
	if r, ok := e.implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, i)
	e.implCache.Store(k, r)
	return r
}

type methKey struct {
	t types.Type
	f *types.Func
}

func (e *Engine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth}
	if r, ok := e.methCache.Load(k); ok {
		return r.(*ssa.Function)
	}
	e.ssaMu.Lock()
	fn := e.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	e.ssaMu.Unlock()
	e.methCache.Store(k, fn)
	return fn
}

func (e *Engine) lookupMethodByName(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			e.ssaMu.Lock()
			defer e.ssaMu.Unlock()
			return e.prog.MethodValue(s)
		}
	}
	return nil
}
