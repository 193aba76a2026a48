package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome kinds of an abstract path.
const (
	Ret   = "return"
	Panic = "panic"
	Stop  = "stop"  // the process ends or the path is otherwise final
	Trunc = "trunc" // a stated analysis bound was reached
)

// Out is the end of one path.
type Out struct {
	St   *State
	Kind string
	Val  Val
	Pos  token.Pos
	Why  string
}

// CallCtx is what a model of a callee sees.
type CallCtx struct {
	In    *Interp
	St    *State
	Fn    *ssa.Function // callee, nil for interface calls on unknown values
	Name  string        // canonical callee name
	Args  []Val
	Pos   token.Pos
	From  *ssa.Function
	Res   types.Type
	Depth int
	fr    *frame
}

// Hook models a callee. ok=false falls through to the default treatment.
type Hook func(c *CallCtx) (outs []Out, ok bool)

// Interp evaluates SSA over the abstract domain, path by path.
type Interp struct {
	P        *Program
	Hooks    map[string]Hook
	OnRec    map[*ssa.Function]Hook         // what a recursive call computes (an induction hypothesis)
	Any      func(c *CallCtx) ([]Out, bool) // consulted before Hooks
	MaxVisit int
	MaxDepth int
	MaxRec   int
	MaxOuts  int
	Steps    int
	MaxSteps int
	Inline   func(f *ssa.Function) bool
	OnStore  func(st *State, p Val, v Val, pos token.Pos, fn *ssa.Function)
	OnLoad   func(st *State, p Val, pos token.Pos, fn *ssa.Function)
	Chan     func(c *CallCtx, op string, ch, v Val) ([]Out, bool) // models send, recv (yielding value, ok) and close
	Go       func(c *CallCtx, fn Val, args []Val)                 // told of every goroutine started
	Bytes    bool                                                 // known texts are converted to slices and back
	Reverse  bool                                                 // maps are ranged over newest key first
	Truncs   int
	Paths    int
	Fns      map[*ssa.Function]bool // functions entered
	stack    []*ssa.Function
}

func newInterp(p *Program) *Interp {
	in := &Interp{P: p, Hooks: map[string]Hook{}, MaxVisit: 4, MaxDepth: 40, MaxRec: 3, MaxOuts: 6000, MaxSteps: 4000000, Fns: map[*ssa.Function]bool{}}
	in.Inline = func(f *ssa.Function) bool { return p.inModule(f) || f.Synthetic != "" && f.Name() != "init" }

	return in
}

type deferred struct {
	fn     Val
	invoke *types.Func
	args   []Val
	pos    token.Pos
	common *ssa.CallCommon
}

type frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	visits  map[int]int
	last    map[int]int // fork count when a block was last entered
	total   int
	forks   int // unknown choices made so far on this path of the frame
	defers  []deferred
	st      *State
	isDefer bool
	depth   int
}

func (f *frame) clone() *frame {
	c := *f
	c.env = make(map[ssa.Value]Val, len(f.env))

	for k, v := range f.env {
		c.env[k] = v
	}

	c.visits = make(map[int]int, len(f.visits))
	for k, v := range f.visits {
		c.visits[k] = v
	}

	c.last = make(map[int]int, len(f.last))
	for k, v := range f.last {
		c.last[k] = v
	}

	c.defers = append([]deferred(nil), f.defers...)
	c.st = f.st.clone()

	return &c
}

type budgetError struct{ s string }

func (b budgetError) Error() string { return b.s }

// Call evaluates fn on args and returns every path's outcome.
func (in *Interp) Call(st *State, fn *ssa.Function, args, binds []Val, depth int, isDefer bool) []Out {
	if fn.Blocks == nil {
		panic(budgetError{"no body for " + fn.String()})
	}

	in.Fns[fn] = true

	rec := 0

	for _, f := range in.stack {
		if f == fn {
			rec++
		}
	}

	if h := in.OnRec[fn]; h != nil && rec > 0 {
		if outs, ok := h(&CallCtx{In: in, St: st, Fn: fn, Name: in.P.fname(fn), Args: args, Pos: fn.Pos(), Res: fn.Signature.Results(), Depth: depth}); ok {
			return outs
		}
	}

	if rec > in.MaxRec || depth > in.MaxDepth {
		in.Truncs++

		return []Out{{St: st, Kind: Trunc, Pos: fn.Pos(), Why: "recursion bound in " + in.P.fname(fn)}}
	}

	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()

	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, visits: map[int]int{}, last: map[int]int{}, st: st, blk: fn.Blocks[0], depth: depth, isDefer: isDefer}

	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}

	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}

	fr.visits[0] = 1

	var outs []Out

	work := []*frame{fr}

	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]

		more, done := in.run(f)
		work = append(work, more...)
		outs = append(outs, done...)

		if len(outs)+len(work) > in.MaxOuts {
			panic(budgetError{fmt.Sprintf("more than %d paths in %s", in.MaxOuts, in.P.fname(fn))})
		}
	}

	return outs
}

// run advances f until it forks or ends.
func (in *Interp) run(f *frame) (more []*frame, done []Out) {
	for {
		in.Steps++
		if in.Steps > in.MaxSteps {
			panic(budgetError{fmt.Sprintf("step budget exhausted in %s", in.P.fname(f.fn))})
		}

		ins := f.blk.Instrs[f.idx]

		switch x := ins.(type) {
		case *ssa.If:
			c := f.st.norm(in.val(f, x.Cond))
			if b, ok := asBool(c); ok {
				if !in.jump(f, pick(f.blk, b)) {
					return nil, in.trunc(f)
				}

				continue
			}

			f.forks++
			g := f.clone()

			var res []*frame

			if g.st.assume(c, false) {
				if in.jump(g, pick(g.blk, false)) {
					res = append(res, g)
				} else {
					done = append(done, in.trunc(g)...)
				}
			}

			if f.st.assume(c, true) {
				if in.jump(f, pick(f.blk, true)) {
					res = append(res, f)
				} else {
					done = append(done, in.trunc(f)...)
				}
			}

			return res, done

		case *ssa.Jump:
			if !in.jump(f, f.blk.Succs[0]) {
				return nil, in.trunc(f)
			}

			continue

		case *ssa.Return:
			var v Val

			switch len(x.Results) {
			case 0:
				v = Tuple{}
			case 1:
				v = in.val(f, x.Results[0])
			default:
				var tu Tuple
				for _, r := range x.Results {
					tu = append(tu, in.val(f, r))
				}

				v = tu
			}

			in.Paths++

			return nil, []Out{{St: f.st, Kind: Ret, Val: v, Pos: x.Pos()}}

		case *ssa.Panic:
			return in.unwind(f, in.val(f, x.X), x.Pos(), "panic")

		case *ssa.RunDefers:
			fs, outs := in.runDefers(f)
			if fs == nil {
				return nil, outs
			}

			for _, g := range fs {
				g.idx++
			}

			return fs, outs

		case *ssa.Defer:
			d := deferred{pos: x.Pos(), common: &x.Call}
			d.fn, d.invoke, d.args = in.callee(f, &x.Call)
			f.defers = append(f.defers, d)
			f.idx++

			continue

		case *ssa.Go:
			fn, inv, args := in.callee(f, &x.Call)
			name := ""

			if inv != nil {
				name = inv.FullName()
			} else if fv, ok := fn.(*Fn); ok {
				name = in.P.fname(fv.F)
			}

			f.st.event("go", name, f.fn, x.Pos(), nil, append([]Val{fn}, args...)...)
			f.idx++

			if in.Go != nil {
				in.Go(in.chanCtx(f, x.Pos()), fn, args)
			}

			continue

		case *ssa.Call:
			outs := in.call(f, x, &x.Call, x.Type(), x.Pos(), false)

			return in.resume(f, x, outs)

		case *ssa.TypeAssert:
			v := f.st.norm(in.val(f, x.X))

			yes, known := f.st.typeIs(v, x.AssertedType)
			if known {
				if m, d, over := in.asserted(f, x, v, yes); over {
					return m, d
				}

				continue
			}

			f.forks++
			g := f.clone()
			g.st.assumeType(v, x.AssertedType, false)
			m1, d1, o1 := in.asserted(g, x, v, false)

			if !o1 {
				m1 = append(m1, g)
			}

			f.st.assumeType(v, x.AssertedType, true)

			m2, d2, o2 := in.asserted(f, x, v, true)
			if !o2 {
				m2 = append(m2, f)
			}

			return append(m1, m2...), append(d1, d2...)

		case *ssa.Select:
			if in.Chan != nil {
				var chs, vals Tuple

				for _, s := range x.States {
					chs = append(chs, f.st.norm(in.val(f, s.Chan)))

					if s.Send != nil {
						vals = append(vals, f.st.norm(in.val(f, s.Send)))
					} else {
						vals = append(vals, Nil{})
					}
				}

				if outs, ok := in.Chan(in.chanCtx(f, x.Pos()), "select", chs, vals); ok {
					// The model yields (index, ok, value); only the chosen
					// receive has one.
					for i := range outs {
						tu, ok := outs[i].Val.(Tuple)
						if outs[i].Kind != Ret || !ok || len(tu) != 3 {
							continue
						}

						n, _ := asInt(tu[0])
						r := Tuple{tu[0], tu[1]}

						for j, s := range x.States {
							if s.Dir != types.RecvOnly {
								continue
							}

							if int64(j) == n {
								r = append(r, tu[2])
							} else {
								r = append(r, zeroVal(s.Chan.Type().Underlying().(*types.Chan).Elem()))
							}
						}

						outs[i].Val = r
					}

					return in.resume(f, x, outs)
				}
			}

			f.forks++

			return in.doSelect(f, x), nil

		case *ssa.Next:
			return in.next(f, x)

		default:
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.ARROW {
				if in.Chan != nil {
					if outs, ok := in.Chan(in.chanCtx(f, u.Pos()), "recv", f.st.norm(in.val(f, u.X)), nil); ok {
						if !u.CommaOk {
							for i := range outs {
								if tu, ok := outs[i].Val.(Tuple); ok && len(tu) == 2 {
									outs[i].Val = tu[0]
								}
							}
						}

						return in.resume(f, u, outs)
					}
				}

				f.forks++
			}

			if s, ok := ins.(*ssa.Send); ok && in.Chan != nil {
				if outs, ok := in.Chan(in.chanCtx(f, s.Pos()), "send", f.st.norm(in.val(f, s.Chan)), f.st.norm(in.val(f, s.X))); ok {
					return in.resume(f, nil, outs)
				}
			}

			if pv, why := in.simple(f, ins); why != "" {
				return in.unwind(f, pv, ins.Pos(), why)
			}

			f.idx++
		}
	}
}

func (in *Interp) chanCtx(f *frame, pos token.Pos) *CallCtx {
	return &CallCtx{In: in, St: f.st, Pos: pos, From: f.fn, Depth: f.depth, fr: f}
}

func pick(b *ssa.BasicBlock, t bool) *ssa.BasicBlock {
	if t {
		return b.Succs[0]
	}

	return b.Succs[1]
}

func (in *Interp) trunc(f *frame) []Out {
	in.Truncs++

	return []Out{{St: f.st, Kind: Trunc, Pos: f.fn.Pos(), Why: "loop bound in " + in.P.fname(f.fn)}}
}

func (in *Interp) jump(f *frame, to *ssa.BasicBlock) bool {
	// A block counts as revisited only if something unknown was decided since
	// the last visit: loops over literals run to completion.
	if n, ok := f.last[to.Index]; !ok || n != f.forks {
		f.visits[to.Index]++
		f.last[to.Index] = f.forks
	}

	f.total++

	if f.visits[to.Index] > in.MaxVisit || f.total > 5000 {
		return false
	}

	// Evaluate the phis together.
	var vals []Val

	n := 0

	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}

		for i, p := range to.Preds {
			if p == f.blk {
				vals = append(vals, in.val(f, phi.Edges[i]))

				break
			}
		}

		n++
	}

	for i := 0; i < n; i++ {
		f.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}

	f.prev, f.blk, f.idx = f.blk, to, n

	return true
}

func (in *Interp) asserted(f *frame, x *ssa.TypeAssert, v Val, yes bool) ([]*frame, []Out, bool) {
	var res Val

	if yes {
		res = unwrap(f.st, v, x.AssertedType)
	} else {
		res = zeroVal(x.AssertedType)
		if !x.CommaOk {
			why := fmt.Sprintf("type assertion to %s can fail", tstr(x.AssertedType))
			m, d := in.unwind(f, rtPanic("typeassert"), x.Pos(), why)

			return m, d, true
		}
	}

	if x.CommaOk {
		f.env[x] = Tuple{res, cBool(yes)}
	} else {
		f.env[x] = res
	}

	f.idx++

	return nil, nil, false
}

func rtPanic(k string) Val { return T(nil, "runtime:"+k) }

// unwrap gives the concrete value inside an interface known to hold a t.
func unwrap(st *State, v Val, t types.Type) Val {
	v = st.norm(v)

	if isIface(t) {
		return v
	}

	if i, ok := v.(*Iface); ok {
		return st.norm(i.V)
	}

	return st.norm(dynTerm(v, t))
}

func wrap(st *State, t types.Type, v Val) Val {
	v = st.norm(v)

	if isIface(t) {
		return v
	}

	if x, ok := v.(*Term); ok && x.Op == "dyn:"+tstr(t) {
		return x.Args[0]
	}

	return &Iface{t, v}
}

// resume continues f after a call instruction with the callee's outcomes.
func (in *Interp) resume(f *frame, x ssa.Value, outs []Out) (more []*frame, done []Out) {
	for i, o := range outs {
		g := f
		if i < len(outs)-1 {
			g = f.cloneNoState()
		}

		g.st = o.St
		if len(outs) > 1 {
			g.forks++
		}

		switch o.Kind {
		case Ret:
			if x != nil {
				g.env[x] = o.Val
			}

			g.idx++
			more = append(more, g)
		case Panic:
			m, d := in.unwind(g, o.Val, o.Pos, o.Why)
			more = append(more, m...)
			done = append(done, d...)
		default:
			done = append(done, o)
		}
	}

	return
}

func (f *frame) cloneNoState() *frame {
	st := f.st
	f.st = newStateStub
	c := f.clone()
	f.st = st

	return c
}

var newStateStub = newState()

// unwind runs f's deferred calls under a panic and either resumes in the
// recover block or propagates.
func (in *Interp) unwind(f *frame, pv Val, pos token.Pos, why string) (more []*frame, done []Out) {
	if len(f.defers) == 0 {
		return nil, []Out{{St: f.st, Kind: Panic, Val: pv, Pos: pos, Why: why}}
	}

	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	f.st.pan = append(f.st.pan, PanRec{Val: pv})

	outs := in.invoke(f, d.fn, d.invoke, d.args, d.common, nil, d.pos, true)

	for i, o := range outs {
		g := f
		if i < len(outs)-1 {
			g = f.cloneNoState()
		}

		g.st = o.St

		switch o.Kind {
		case Ret:
			rec := g.st.pan[len(g.st.pan)-1]
			g.st.pan = g.st.pan[:len(g.st.pan)-1]

			if !rec.Recovered {
				m, dd := in.unwind(g, pv, pos, why)
				more, done = append(more, m...), append(done, dd...)

				continue
			}

			fs, oo := in.runDefers(g)
			done = append(done, oo...)

			for _, h := range fs {
				if h.fn.Recover != nil {
					h.prev, h.blk, h.idx = nil, h.fn.Recover, 0
					more = append(more, h)
				} else {
					done = append(done, Out{St: h.st, Kind: Ret, Val: zeroVal(h.fn.Signature.Results()), Pos: pos})
				}
			}
		case Panic:
			g.st.pan = g.st.pan[:len(g.st.pan)-1]
			m, dd := in.unwind(g, o.Val, o.Pos, o.Why)
			more, done = append(more, m...), append(done, dd...)
		default:
			done = append(done, o)
		}
	}

	return
}

// runDefers runs f's deferred calls on a normal exit.
func (in *Interp) runDefers(f *frame) (more []*frame, done []Out) {
	if len(f.defers) == 0 {
		return []*frame{f}, nil
	}

	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	f.st.pan = append(f.st.pan, PanRec{Val: Nil{}})

	outs := in.invoke(f, d.fn, d.invoke, d.args, d.common, nil, d.pos, true)

	for i, o := range outs {
		g := f
		if i < len(outs)-1 {
			g = f.cloneNoState()
		}

		g.st = o.St

		switch o.Kind {
		case Ret:
			g.st.pan = g.st.pan[:len(g.st.pan)-1]
			m, dd := in.runDefers(g)
			more, done = append(more, m...), append(done, dd...)
		case Panic:
			g.st.pan = g.st.pan[:len(g.st.pan)-1]
			m, dd := in.unwind(g, o.Val, o.Pos, o.Why)
			more, done = append(more, m...), append(done, dd...)
		default:
			done = append(done, o)
		}
	}

	return
}

// val evaluates an operand.
func (in *Interp) val(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroVal(v.Type())
		}

		return Const{v.Value, v.Type()}
	case *ssa.Global:
		return in.globalPtr(v)
	case *ssa.Function:
		return &Fn{F: v}
	case *ssa.Builtin:
		return T(v.Type(), "builtin:"+v.Name())
	}

	x, ok := f.env[v]
	if !ok {
		return T(v.Type(), "undef:"+f.fn.String()+":"+v.Name())
	}

	return f.st.norm(x)
}

var globalObjs = map[*ssa.Global]*Obj{}

func (in *Interp) globalPtr(g *ssa.Global) Val {
	o, ok := globalObjs[g]
	if !ok {
		mod := g.Pkg != nil && (g.Pkg.Pkg.Path() == in.P.Mod || strings.HasPrefix(g.Pkg.Pkg.Path(), in.P.Mod+"/"))
		o = &Obj{ID: "g:" + g.String(), T: g.Type().(*types.Pointer).Elem(), Sym: !mod, Base: true}
		globalObjs[g] = o
	}

	return P(o, "")
}

// callee evaluates the callee of a call: a function value, or an interface
// method with its receiver as the first argument.
func (in *Interp) callee(f *frame, c *ssa.CallCommon) (Val, *types.Func, []Val) {
	var args []Val

	if c.IsInvoke() {
		args = append(args, in.val(f, c.Value))
		for _, a := range c.Args {
			args = append(args, in.val(f, a))
		}

		return nil, c.Method, args
	}

	for _, a := range c.Args {
		args = append(args, in.val(f, a))
	}

	return in.val(f, c.Value), nil, args
}

func (in *Interp) call(f *frame, x ssa.Value, c *ssa.CallCommon, res types.Type, pos token.Pos, isDefer bool) []Out {
	fn, inv, args := in.callee(f, c)

	return in.invoke(f, fn, inv, args, c, res, pos, isDefer)
}

func (in *Interp) invoke(f *frame, fn Val, inv *types.Func, args []Val, c *ssa.CallCommon, res types.Type, pos token.Pos, isDefer bool) []Out {
	st := f.st

	if res == nil && c != nil {
		res = c.Signature().Results()
		if tu := c.Signature().Results(); tu.Len() == 1 {
			res = tu.At(0).Type()
		}
	}

	if inv != nil {
		recv := st.norm(args[0])

		var dt types.Type

		var rv Val

		switch r := recv.(type) {
		case Nil:
			return []Out{{St: st, Kind: Panic, Val: rtPanic("nilcall"), Pos: pos, Why: "method call on nil interface"}}
		case *Iface:
			dt, rv = r.T, st.norm(r.V)
		case *Term:
			if d, ok := st.dyn[r.key]; ok {
				dt, rv = d, st.norm(dynTerm(r, d))
			}
		}

		if dt != nil {
			if m := in.P.SSA.LookupMethod(dt, inv.Pkg(), inv.Name()); m != nil {
				na := append([]Val{rv}, args[1:]...)

				return in.apply(f, m, nil, na, res, pos, isDefer)
			}
		}

		cc := &CallCtx{In: in, St: st, Name: "invoke " + in.ifaceName(c, inv), Args: args, Pos: pos, From: f.fn, Res: res, Depth: f.depth, fr: f}

		return in.opaque(cc)
	}

	switch v := st.norm(fn).(type) {
	case *Fn:
		return in.apply(f, v.F, v.B, args, res, pos, isDefer)
	case *Term:
		if strings.HasPrefix(v.Op, "builtin:") {
			return in.builtin(f, strings.TrimPrefix(v.Op, "builtin:"), args, c, res, pos)
		}

		cc := &CallCtx{In: in, St: st, Name: "dynamic", Args: append([]Val{v}, args...), Pos: pos, From: f.fn, Res: res, Depth: f.depth, fr: f}

		return in.opaque(cc)
	case Nil:
		return []Out{{St: st, Kind: Panic, Val: rtPanic("nilfunc"), Pos: pos, Why: "call of nil function"}}
	}

	cc := &CallCtx{In: in, St: st, Name: "dynamic", Args: append([]Val{fn}, args...), Pos: pos, From: f.fn, Res: res, Depth: f.depth, fr: f}

	return in.opaque(cc)
}

func (in *Interp) ifaceName(c *ssa.CallCommon, m *types.Func) string {
	t := "?"
	if c != nil {
		t = tstr(c.Value.Type())
	}

	t = strings.ReplaceAll(t, in.P.Mod+"/", "")

	return t + "." + m.Name()
}

func (in *Interp) apply(f *frame, fn *ssa.Function, binds, args []Val, res types.Type, pos token.Pos, isDefer bool) []Out {
	cc := &CallCtx{In: in, St: f.st, Fn: fn, Name: in.P.fname(fn), Args: args, Pos: pos, From: f.fn, Res: res, Depth: f.depth, fr: f}
	cc.sameAs()

	if in.Any != nil {
		if o, ok := in.Any(cc); ok {
			return o
		}
	}

	if h, ok := in.Hooks[cc.Name]; ok {
		if o, ok := h(cc); ok {
			return o
		}
	}

	if fn.Blocks != nil && in.Inline(fn) {
		return in.Call(f.st, fn, args, binds, f.depth+1, isDefer)
	}

	return in.opaqueFn(cc)
}

// opaque treats a call whose target is not known.
func (in *Interp) opaque(c *CallCtx) []Out {
	if in.Any != nil {
		if o, ok := in.Any(c); ok {
			return o
		}
	}

	if h, ok := in.Hooks[c.Name]; ok {
		if o, ok := h(c); ok {
			return o
		}
	}

	return c.effect("call", c.Name)
}

// effect records an event and returns unknown fresh results.
func (c *CallCtx) effect(kind, name string) []Out {
	v := c.freshRes(name)
	c.St.event(kind, name, c.From, c.Pos, v, c.Args...)

	return []Out{{St: c.St, Kind: Ret, Val: v}}
}

func (c *CallCtx) freshRes(name string) Val {
	id := name + "!" + c.St.fresh()

	return resTerms(c.Res, func(i int, t types.Type) Val { return symVal(T(t, fmt.Sprintf("%s.%d", id, i)), t) })
}

func (c *CallCtx) pureRes(name string) Val {
	return resTerms(c.Res, func(i int, t types.Type) Val {
		return c.St.norm(T(t, fmt.Sprintf("%s.%d", name, i), c.Args...))
	})
}

func symVal(t *Term, typ types.Type) Val {
	return t
}

func resTerms(res types.Type, mk func(i int, t types.Type) Val) Val {
	switch r := res.(type) {
	case nil:
		return Tuple{}
	case *types.Tuple:
		if r.Len() == 1 {
			return mk(0, r.At(0).Type())
		}

		tu := Tuple{}
		for i := 0; i < r.Len(); i++ {
			tu = append(tu, mk(i, r.At(i).Type()))
		}

		return tu
	}

	return mk(0, res)
}

func ret(st *State, v Val) []Out { return []Out{{St: st, Kind: Ret, Val: v}} }

func (in *Interp) doSelect(f *frame, x *ssa.Select) []*frame {
	var more []*frame

	n := len(x.States)
	total := n

	if !x.Blocking {
		total++
	}

	// Result tuple: index, recvOk, then one value per receive state.
	for i := 0; i < total; i++ {
		g := f.clone()
		idx := i

		if i == n {
			idx = -1
		}

		tu := Tuple{cInt(int64(idx)), nil}
		okv := Val(cBool(false))

		for j, s := range x.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				if j == i {
					v := T(et, "recv!"+g.st.fresh())
					okv = T(types.Typ[types.Bool], "recvok", v)
					tu = append(tu, v)
					g.st.event("recv", "select", f.fn, x.Pos(), v, in.val(g, s.Chan))
				} else {
					tu = append(tu, zeroVal(et))
				}
			} else if j == i {
				g.st.event("send", "select", f.fn, x.Pos(), nil, in.val(g, s.Chan), in.val(g, s.Send))
			}
		}

		tu[1] = okv
		g.env[x] = tu
		g.idx++
		more = append(more, g)
	}

	return more
}

func (in *Interp) next(f *frame, x *ssa.Next) (more []*frame, done []Out) {
	it, ok := in.val(f, x.Iter).(*Iter)
	tt := x.Type().(*types.Tuple)

	if !ok {
		it = &Iter{ID: "?"}
	}

	src := f.st.User["iter:"+it.ID]
	snap := f.st.maps["snap:"+it.ID]
	i := f.st.iters[it.ID]
	f.st.iters[it.ID] = i + 1

	zero := func() Tuple { return Tuple{cBool(false), zeroVal(tt.At(1).Type()), zeroVal(tt.At(2).Type())} }

	switch s := src.(type) {
	case *MapV:
		// The keys present when the loop began, less those since deleted.
		m := f.st.getMap(s.ID)
		for snap != nil && m != nil && i < len(snap.Keys) {
			at := i
			if in.Reverse {
				at = len(snap.Keys) - 1 - i
			}

			for j := range m.Keys {
				if m.Keys[j].Key() == snap.Keys[at].Key() {
					f.env[x] = Tuple{cBool(true), m.Keys[j], m.Vals[j]}
					f.st.iters[it.ID] = i + 1
					f.idx++

					return []*frame{f}, nil
				}
			}

			i++
		}

		if m == nil || !m.Sym {
			f.env[x] = zero()
			f.idx++

			return []*frame{f}, nil
		}
	case Const:
		if str, ok := asStr(s); ok {
			rs := []rune(str)
			if i < len(rs) {
				f.env[x] = Tuple{cBool(true), cInt(int64(len(string(rs[:i])))), Const{constant.MakeInt64(int64(rs[i])), tt.At(2).Type()}}
			} else {
				f.env[x] = zero()
			}

			f.idx++

			return []*frame{f}, nil
		}
	case Nil:
		f.env[x] = zero()
		f.idx++

		return []*frame{f}, nil
	}

	if i >= in.MaxVisit {
		f.env[x] = zero()
		f.idx++

		return []*frame{f}, nil
	}

	f.forks++
	g := f.clone()
	g.env[x] = zero()
	g.idx++

	id := "range"
	if src != nil {
		id += ":" + src.Key()
	}

	f.env[x] = Tuple{cBool(true), T(tt.At(1).Type(), fmt.Sprintf("%s.k%d", id, i)), T(tt.At(2).Type(), fmt.Sprintf("%s.v%d", id, i))}
	f.idx++

	return []*frame{g, f}, nil
}
