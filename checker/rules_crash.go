package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C01"] = rule{
		explain: "Every function that can run where nothing recovers is found: from the start of each goroutine (and package initialiser and finalizer) along the call graph, through the libraries, leaving out what is called under a deferred function that always recovers. In these functions every explicit panic, failed conversion, fixed index and use of a value that may be missing (the result of a failed call, an unchecked lookup, an argument that may be nil) is an obligation, discharged by the checks on the paths to it, by its callers, or by evaluating the callers abstractly. The job service, which all commands depend on, is evaluated over every history of a bounded length of processes stopping, continuing and ending, signals, and jobs being resumed: nothing may raise an error, and a task is never performed by two goroutines. A step of a task is evaluated with an operation that raises each kind of error: the step returns, and the task throws. The text and the comparison of lists are evaluated for every way a few cells can refer to each other, including to themselves: they end. The process is only ended where the shell's own end was asked for.",
		assume:  []string{"memory and stack suffice for the nesting of the data and of the text read; what libraries raise for arguments of the right kind is limited to a list of known functions", "unsynchronised access (C10, C11) and unlocking what is not locked (C10) are decided there", "the embedded boot script and usage text are well formed (the first is read by C30's and C31's analyses)"},
		run:     checkC01,
	}
}

func checkC01(c *Check) {
	k := &crash{c: c, p: c.P, g: c.P.graph(), tried: map[string]bool{}, via: map[*ssa.Function]ssa.Instruction{}, root: map[*ssa.Function]string{}, shield: map[*ssa.Function]ssa.Instruction{}, eval: map[*ssa.Function]bool{}}

	k.histories()
	k.steps()
	k.lists()
	k.find()
	k.hazards()
	k.ends()
}

type crash struct {
	tried  map[string]bool // evaluated to exclude an error
	c      *Check
	p      *Program
	g      *Graph
	via    map[*ssa.Function]ssa.Instruction // how an exposed function is reached
	root   map[*ssa.Function]string
	shield map[*ssa.Function]ssa.Instruction // the deferral protecting the rest of a function
	order  []*ssa.Function
	eval   map[*ssa.Function]bool // evaluated in the service's histories
}

// recovers: f always recovers when it is deferred.
func recovers(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}

	found := false

	instrs(f, func(i ssa.Instruction) {
		call, ok := i.(*ssa.Call)
		if !ok {
			return
		}

		if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "recover" {
			return
		}

		all := true

		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 || b == f.Recover {
				continue
			}

			switch b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				if !i.Block().Dominates(b) {
					all = false
				}
			}
		}

		found = found || all
	})

	return found
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}

	for _, i := range a.Block().Instrs {
		if i == a {
			return a != b
		}

		if i == b {
			return false
		}
	}

	return false
}

func (k *crash) shieldOf(f *ssa.Function) ssa.Instruction {
	if s, ok := k.shield[f]; ok {
		return s
	}

	var s ssa.Instruction

	instrs(f, func(i ssa.Instruction) {
		d, ok := i.(*ssa.Defer)
		if !ok || s != nil && before(s, i) {
			return
		}

		for _, t := range k.g.callees(d) {
			if recovers(t) {
				s = i
			}
		}
	})

	k.shield[f] = s

	return s
}

// exposed: what goes wrong at i is not recovered from in its function.
func (k *crash) exposed(i ssa.Instruction) bool {
	s := k.shieldOf(i.Parent())

	return s == nil || !before(s, i)
}

// find collects the functions that can run where nothing recovers.
func (k *crash) find() {
	type start struct {
		f   *ssa.Function
		why string
	}

	var starts []start

	add := func(f *ssa.Function, why string) {
		if f != nil && f.Blocks != nil {
			starts = append(starts, start{f, why})
		}
	}

	goroutines := 0

	for _, f := range k.p.Src {
		f := f

		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Name() == "main" && f.Parent() == nil {
			add(f, "main")
		}

		if strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && f.Parent() == nil {
			add(f, "initialiser")
		}

		instrs(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Go:
				goroutines++

				for _, t := range k.g.callees(x) {
					add(t, "goroutine started in "+k.p.fname(f))
				}
			case *ssa.Call:
				for _, t := range k.g.callees(x) {
					n := k.p.fname(t)
					if n != "runtime.SetFinalizer" && n != "time.AfterFunc" && n != "runtime.AddCleanup" {
						continue
					}

					for _, a := range x.Call.Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}

						switch v := a.(type) {
						case *ssa.Function:
							add(v, "finalizer")
						case *ssa.MakeClosure:
							add(v.Fn.(*ssa.Function), "finalizer")
						}
					}
				}
			}
		})
	}

	k.c.atLeast("goroutines", goroutines, 4)
	k.c.count("goroutine_starts", goroutines)

	var work []*ssa.Function

	for _, s := range starts {
		if _, ok := k.root[s.f]; !ok {
			k.root[s.f] = s.why
			k.via[s.f] = nil
			work = append(work, s.f)
		}
	}

	type callback struct {
		f *ssa.Function
		i ssa.Instruction
	}

	var later []callback

	for len(work) > 0 {
		f := work[0]
		work = work[1:]

		if k.p.inModule(f) {
			k.order = append(k.order, f)
		}

		instrs(f, func(i ssa.Instruction) {
			ci, ok := i.(ssa.CallInstruction)
			if !ok || !k.exposed(i) {
				return
			}

			if _, isGo := i.(*ssa.Go); isGo && k.p.inModule(f) {
				return // a start of its own
			}

			for _, t := range k.g.callees(ci) {
				if _, ok := k.via[t]; ok {
					continue
				}

				if !k.p.inModule(f) && k.p.inModule(t) && t.Parent() != nil {
					// A library calls what it was given, which
					// must have been where nothing recovers.
					later = append(later, callback{t, i})

					continue
				}

				k.via[t] = i
				work = append(work, t)
			}
		})

		if len(work) > 0 {
			continue
		}

		for _, cb := range later {
			if _, ok := k.via[cb.f]; !ok && k.given(cb.f) {
				k.via[cb.f] = cb.i
				work = append(work, cb.f)
			}
		}
	}

	shields := map[string]bool{}

	for f, s := range k.shield {
		if s != nil && k.p.inModule(f) {
			shields[k.p.fname(f)] = true
		}
	}

	k.c.count("exposed_functions", len(k.order))
	k.c.count("recovering_functions", len(shields))
	k.c.atLeast("exposed", len(k.order), 20)
}

// given: the closure f is made where nothing recovers.
func (k *crash) given(f *ssa.Function) bool {
	p := f.Parent()
	if _, ok := k.via[p]; !ok {
		return false
	}

	found := false

	instrs(p, func(i ssa.Instruction) {
		for _, o := range i.Operands(nil) {
			if *o == f && k.exposed(i) {
				found = true
			}
		}
	})

	return found
}

// chain tells how f is reached.
func (k *crash) chain(f *ssa.Function) string {
	s := k.p.fname(f)

	for n := 0; n < 12; n++ {
		i := k.via[f]
		if i == nil {
			return s + " (" + k.root[f] + ")"
		}

		f = i.Parent()
		s += " <- " + k.p.fname(f)
	}

	return s
}

// fact is a condition known to hold.
type fact struct {
	v    ssa.Value
	true bool
}

// facts lists the conditions that hold at the start of b.
func facts(b *ssa.BasicBlock) (fs []fact) {
	for n := 0; b != nil && n < 200; n++ {
		if len(b.Preds) == 1 {
			p := b.Preds[0]
			if c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				fs = append(fs, imply(fact{c.Cond, p.Succs[0] == b}, 0)...)
			}
		}

		b = b.Idom()
	}

	return fs
}

// imply adds what a condition is made of.
func imply(f fact, d int) []fact {
	fs := []fact{f}

	if d > 6 {
		return fs
	}

	switch x := f.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			fs = append(fs, imply(fact{x.X, !f.true}, d+1)...)
		}
	case *ssa.Phi:
		var from []int

		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != f.true {
				continue
			}

			from = append(from, i)
		}

		if len(from) == 1 {
			i := from[0]
			fs = append(fs, imply(fact{x.Edges[i], f.true}, d+1)...)

			p := x.Block().Preds[i]
			if c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				fs = append(fs, imply(fact{c.Cond, p.Succs[0] == x.Block()}, d+1)...)
			}

			fs = append(fs, facts(p)...)
		}
	}

	return fs
}

// at lists what holds at an instruction.
func at(i ssa.Instruction) []fact { return facts(i.Block()) }

// held is what a variable holds when it is read, if one assignment decides that.
func held(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}

	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}

	var stores []*ssa.Store

	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				stores = append(stores, x)
			} else {
				return v
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// What is deferred happens after.
			for _, c := range *x.Referrers() {
				if _, ok := c.(*ssa.Defer); !ok {
					return v
				}
			}
		default:
			return v
		}
	}

	for _, s := range stores {
		if !before(s, u) {
			continue
		}

		last := true

		for _, t := range stores {
			if t != s && canFollow(s, t) && canFollow(t, u) {
				last = false
			}
		}

		if last {
			return s.Val
		}
	}

	return v
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)

	return ok && c.IsNil()
}

func sameValue(a, b ssa.Value) bool {
	a, b = held(a), held(b)

	return a == b || canon(a) == canon(b) && !strings.Contains(canon(a), "?")
}

// knownNil: 1 if the facts say v is not nil, -1 if they say it is.
func (k *crash) knownNil(v ssa.Value, fs []fact) int {
	v = held(v)

	for _, f := range fs {
		switch x := f.v.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}

			o := x.X
			if isNilConst(o) {
				o = x.Y
			} else if !isNilConst(x.Y) {
				// Equal to something that is there.
				if f.true == (x.Op == token.EQL) {
					for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if sameValue(s[0], v) {
							if _, ok := s[1].(*ssa.Const); ok {
								return 1
							}
						}
					}
				}

				continue
			}

			non := f.true == (x.Op == token.NEQ)

			o = held(o)

			if sameValue(o, v) {
				if non {
					return 1
				}

				return -1
			}

			// The error of the call that gives v.
			e, ok := v.(*ssa.Extract)
			oe, ok2 := o.(*ssa.Extract)

			if ok && ok2 && e.Tuple == oe.Tuple && e.Index != oe.Index && !non && isError(o.Type()) {
				return 1
			}
		case *ssa.Extract:
			if e, ok := v.(*ssa.Extract); ok && e.Tuple == x.Tuple && e.Index != x.Index && f.true {
				return 1
			}

			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && f.true && x.Index == 1 && sameValue(ta.X, v) {
				return 1
			}
		case *ssa.Call:
			// errors.Is(err, something)
			if g := x.Call.StaticCallee(); g != nil && f.true && strings.HasPrefix(k.p.fname(g), "errors.") && len(x.Call.Args) > 0 && sameValue(x.Call.Args[0], v) {
				return 1
			}
		}
	}

	return 0
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return true
	}

	return false
}

// missing explains how v may be nil at an instruction, or is empty.
func (k *crash) missing(v ssa.Value, i ssa.Instruction, seen map[ssa.Value]bool) string {
	return k.missingIn(v, at(i), seen, i)
}

func (k *crash) missingIn(v ssa.Value, fs []fact, seen map[ssa.Value]bool, use ssa.Instruction) string {
	if seen[v] || len(seen) > 60 || !nilable(v.Type()) {
		return ""
	}

	switch k.knownNil(v, fs) {
	case 1:
		return ""
	case -1:
		return "it is nil here"
	}

	seen[v] = true
	defer delete(seen, v)

	if h := held(v); h != v {
		return k.missingIn(h, fs, seen, use)
	}

	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "it is nil"
		}
	case *ssa.ChangeInterface:
		return k.missingIn(x.X, fs, seen, use)
	case *ssa.ChangeType:
		return k.missingIn(x.X, fs, seen, use)
	case *ssa.Phi:
		for n, e := range x.Edges {
			p := x.Block().Preds[n]
			efs := facts(p)

			if c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				efs = append(efs, imply(fact{c.Cond, p.Succs[0] == x.Block()}, 0)...)
			}

			if why := k.missingIn(e, efs, seen, use); why != "" {
				return why
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		n := -1

		for i, p := range f.Params {
			if p == x {
				n = i
			}
		}

		if n == 1 && k.walked(f) && (use == nil || use.Parent() != f || unexamined(f, use)) {
			return "filepath.Walk passes nil for what cannot be examined"
		}

		for _, ci := range k.g.callers(f) {
			if _, ok := k.via[ci.Parent()]; !ok || !k.exposed(ci.(ssa.Instruction)) || !k.p.inModule(ci.Parent()) {
				continue
			}

			args := ci.Common().Args
			if ci.Common().IsInvoke() {
				args = append([]ssa.Value{ci.Common().Value}, args...)
			}

			if n < len(args) && len(args) == len(f.Params) {
				if ci.Common().IsInvoke() && n == 0 {
					continue // the invocation itself is an obligation
				}

				if why := k.missing(args[n], ci.(ssa.Instruction), seen); why != "" {
					return why + ", passed in " + k.p.fname(ci.Parent())
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && neverSet(x) {
			return "nothing was assigned to the variable"
		}
	case *ssa.Extract:
		return k.missingResult(x.Tuple, x.Index, seen)
	case *ssa.Call:
		return k.missingResult(x, -1, seen)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && !x.CommaOk && !k.service(x.Parent()) {
			return "the entry may not exist"
		}
	}

	return ""
}

// neverSet: the local variable u reads may still be as it was declared.
func neverSet(u *ssa.UnOp) bool {
	var made *ssa.MakeClosure

	addr := u.X

	for {
		fv, ok := addr.(*ssa.FreeVar)
		if !ok {
			break
		}

		n := -1

		for i, v := range fv.Parent().FreeVars {
			if v == fv {
				n = i
			}
		}

		p := fv.Parent().Parent()
		addr, made = nil, nil

		instrs(p, func(i ssa.Instruction) {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == fv.Parent() && n >= 0 {
				addr, made = mc.Bindings[n], mc
			}
		})
	}

	a, ok := addr.(*ssa.Alloc)
	if !ok {
		return false
	}

	var use ssa.Instruction = u
	if made != nil {
		use = made
	}

	set := false

	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			// Set before, or by whoever has made the closure.
			if x.Addr != a || before(x, use) || made != nil && before(use, x) {
				set = true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for n, b := range x.Bindings {
				if b == a && stores(x.Fn.(*ssa.Function), n) {
					set = true
				}
			}
		default:
			set = true
		}
	}

	return !set
}

// stores: a closure may assign to its nth captured variable.
func stores(f *ssa.Function, n int) bool {
	for _, r := range *f.FreeVars[n].Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for m, b := range x.Bindings {
				if b == f.FreeVars[n] && stores(x.Fn.(*ssa.Function), m) {
					return true
				}
			}
		default:
			return true
		}
	}

	return false
}

// unexamined: use is reached when filepath.Walk passes nil and an error.
func unexamined(f *ssa.Function, use ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}

	var from func(b *ssa.BasicBlock) bool

	from = func(b *ssa.BasicBlock) bool {
		if b == use.Block() {
			return true
		}

		if seen[b] {
			return false
		}

		seen[b] = true

		if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if x, ok := c.Cond.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) && (isNilConst(x.X) || isNilConst(x.Y)) {
				o := x.X
				if isNilConst(o) {
					o = x.Y
				}

				for n, isNil := range map[int]bool{1: true, 2: false} {
					if n < len(f.Params) && o == f.Params[n] {
						if isNil == (x.Op == token.EQL) {
							return from(b.Succs[0])
						}

						return from(b.Succs[1])
					}
				}
			}
		}

		for _, s := range b.Succs {
			if from(s) {
				return true
			}
		}

		return false
	}

	return len(f.Params) > 2 && from(f.Blocks[0])
}

// walked: f is given to filepath.Walk.
func (k *crash) walked(f *ssa.Function) bool {
	for _, ci := range k.g.callers(f) {
		if n := k.p.fname(ci.Parent()); strings.HasPrefix(n, "path/filepath.") || strings.HasPrefix(n, "io/fs.") {
			return true
		}
	}

	return false
}

// service: decided by the histories.
func (k *crash) service(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}

	return f.Pkg != nil && f.Pkg == k.p.pkg(relJob)
}

func (k *crash) missingResult(v ssa.Value, n int, seen map[ssa.Value]bool) string {
	switch x := v.(type) {
	case *ssa.TypeAssert:
		return "the conversion may fail"
	case *ssa.Lookup:
		if !k.service(x.Parent()) {
			return "the entry may not exist"
		}
	case *ssa.Call:
		rs := x.Call.Signature().Results()
		last := rs.Len() - 1

		if n < 0 {
			n = 0
		}

		if n == last && isError(rs.At(last).Type()) {
			// An error is missing when there is none.
			if fs := k.g.callees(x); len(fs) == 1 && k.p.inModule(fs[0]) && fs[0].Blocks != nil {
				return k.returned(fs[0], n, seen)
			}

			return "there may be no error"
		}

		fails := last > 0 && isError(rs.At(last).Type())
		fs := k.g.callees(x)

		for _, f := range fs {
			if f.Blocks != nil && k.p.inModule(f) {
				if why := k.returned(f, n, seen); why != "" {
					return why
				}
			} else if fails {
				return k.p.fname(f) + " may fail"
			}
		}

		if len(fs) == 0 && fails {
			return "the call may fail"
		}
	}

	return ""
}

func (k *crash) returned(f *ssa.Function, n int, seen map[ssa.Value]bool) string {
	why := ""

	instrs(f, func(i ssa.Instruction) {
		r, ok := i.(*ssa.Return)
		if !ok || why != "" || n >= len(r.Results) || i.Block() == f.Recover {
			return
		}

		if w := k.missing(r.Results[n], i, seen); w != "" {
			why = k.p.fname(f) + " may return nil: " + w
		}
	})

	return why
}

// atLeastLong: the elements v is known to have.
func atLeastLong(v ssa.Value, fs []fact) int {
	n := 0

	for _, f := range fs {
		b, ok := f.v.(*ssa.BinOp)
		if !ok {
			continue
		}

		op := b.Op
		l, r := b.X, b.Y

		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l

			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}

		call, ok := l.(*ssa.Call)
		if !ok {
			continue
		}

		if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || !sameValue(call.Call.Args[0], v) {
			continue
		}

		c, ok := r.(*ssa.Const)
		if !ok || c.Value == nil {
			// Compared with something else: there is a check, of whatever kind.
			n = max(n, 1)

			continue
		}

		m, _ := constant.Int64Val(c.Value)

		if !f.true {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}

		switch op {
		case token.GTR:
			n = max(n, int(m)+1)
		case token.GEQ, token.EQL:
			n = max(n, int(m))
		case token.NEQ:
			if m == 0 {
				n = max(n, 1)
			}
		}
	}

	return n
}

// short explains how v may have fewer than n elements.
func (k *crash) short(v ssa.Value, n int, i ssa.Instruction, seen map[ssa.Value]bool) string {
	if n <= 0 || seen[v] || atLeastLong(v, at(i)) >= n {
		return ""
	}

	seen[v] = true
	defer delete(seen, v)

	switch x := v.(type) {
	case *ssa.Slice:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && x.High == nil && x.Low == nil && int(a.Len()) >= n {
				return ""
			}
		}

		if x.Low == nil && x.High == nil {
			return k.short(x.X, n, i, seen)
		}

		return ""
	case *ssa.Const:
		return "it is empty"
	case *ssa.Phi:
		for m, e := range x.Edges {
			p := x.Block().Preds[m]
			if why := k.short(e, n, p.Instrs[len(p.Instrs)-1], seen); why != "" {
				return why
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		m := -1

		for j, p := range f.Params {
			if p == x {
				m = j
			}
		}

		for _, ci := range k.g.callers(f) {
			if _, ok := k.via[ci.Parent()]; !ok || !k.exposed(ci.(ssa.Instruction)) || !k.p.inModule(ci.Parent()) || ci.Common().IsInvoke() {
				continue
			}

			if args := ci.Common().Args; m < len(args) {
				if why := k.short(args[m], n, ci.(ssa.Instruction), seen); why != "" {
					return why + ", passed in " + k.p.fname(ci.Parent())
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			// What is appended here is at least this much.
			if len(x.Call.Args) == 2 {
				if s, ok := x.Call.Args[1].(*ssa.Slice); ok {
					if p, ok := s.X.Type().Underlying().(*types.Pointer); ok {
						if a, ok := p.Elem().Underlying().(*types.Array); ok {
							return k.short(x.Call.Args[0], n-int(a.Len()), i, seen)
						}
					}
				}

				return k.short(x.Call.Args[0], n, i, seen)
			}
		}

		for _, f := range k.g.callees(x) {
			switch name := k.p.fname(f); {
			case strings.HasPrefix(name, "strings.Split") || strings.HasPrefix(name, "strings.Fields") && n > 1:
				if n > 1 {
					return name + " may give fewer"
				}
			case name == "strings.Fields":
				return name + " may give none"
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if k.p.inModule2(g) {
				return k.shortGlobal(g, n, seen)
			}
		}
	}

	return ""
}

func (p *Program) inModule2(g *ssa.Global) bool {
	return g.Pkg != nil && (g.Pkg.Pkg.Path() == p.Mod || strings.HasPrefix(g.Pkg.Pkg.Path(), p.Mod+"/"))
}

// shortGlobal: some assignment leaves the variable shorter.
func (k *crash) shortGlobal(g *ssa.Global, n int, seen map[ssa.Value]bool) string {
	best := "it is never set"

	for _, f := range k.p.Src {
		instrs(f, func(i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok || s.Addr != g {
				return
			}

			why := k.short(s.Val, n, i, seen)

			// Assigned again before anything else can look.
			again := false

			instrs(f, func(j ssa.Instruction) {
				if t, ok := j.(*ssa.Store); ok && t.Addr == g && before(i, j) {
					again = true
				}
			})

			if again {
				return
			}

			best = why
		})
	}

	return best
}

// raising are library functions that raise an error for some arguments.
var raising = map[string]bool{
	"strings.Repeat": true, "bytes.Repeat": true, "regexp.MustCompile": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"(*math/big.Int).Div": true, "(*math/big.Int).Mod": true, "(*math/big.Int).Quo": true, "(*math/big.Int).Rem": true, "(*math/big.Rat).Quo": true, "(*math/big.Rat).SetFrac": true, "(*math/big.Rat).Inv": true, "math/big.NewRat": true,
	"time.NewTicker": true, "math/rand.Intn": true,
}

// hazards examines every exposed function.
func (k *crash) hazards() {
	n := 0

	for _, f := range k.order {
		f := f
		on := k.p.fname(f)

		if f.Pkg == nil && f.Parent() == nil && f.Synthetic == "" || len(f.Blocks) == 0 {
			continue
		}

		ob := func(rule string, i ssa.Instruction, why string, what string) {
			n++
			k.c.ob(rule, on, why == "", i.Pos(), "%s: %s (%s)", what, why, k.chain(f))
		}

		instrs(f, func(i ssa.Instruction) {
			if !k.exposed(i) || f.Recover == i.Block() && f.Recover != nil {
				return
			}

			need := func(v ssa.Value, what string) {
				if nilable(v.Type()) {
					if _, plain := v.(*ssa.Alloc); plain {
						return
					}

					ob("missing", i, k.missing(v, i, map[ssa.Value]bool{}), what+" "+valueName(v))
				}
			}

			switch x := i.(type) {
			case *ssa.Panic:
				if selects(x) {
					return
				}

				ob("panic", i, k.raised(f, x), "an error is raised where nothing recovers")
			case *ssa.TypeAssert:
				if !x.CommaOk {
					why := ""
					if !k.typed(x) {
						why = "the value may be of another type"
					}

					ob("conversion", i, why, "converts to "+tstr(x.AssertedType))
				}
			case *ssa.FieldAddr:
				need(x.X, "uses a field of")
			case *ssa.UnOp:
				if x.Op == token.MUL {
					need(x.X, "reads through")
				}
			case *ssa.Store:
				need(x.Addr, "stores through")
			case *ssa.MapUpdate:
				need(x.Map, "adds an entry to")
			case *ssa.IndexAddr:
				if c, ok := x.Index.(*ssa.Const); ok && c.Value != nil {
					if _, isS := x.X.Type().Underlying().(*types.Slice); isS {
						m, _ := constant.Int64Val(c.Value)
						ob("index", i, k.short(x.X, int(m)+1, i, map[ssa.Value]bool{}), fmt.Sprintf("element %d of %s", m, valueName(x.X)))
					}
				} else if b, ok := x.Index.(*ssa.BinOp); ok && b.Op == token.SUB {
					if call, ok := b.X.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && !k.service(f) {
							ob("index", i, k.long(x.X, i), "the last element of "+valueName(x.X))
						}
					}
				}
			case *ssa.Slice:
				if c, ok := x.Low.(*ssa.Const); ok && c.Value != nil {
					if _, isS := x.X.Type().Underlying().(*types.Slice); isS {
						m, _ := constant.Int64Val(c.Value)
						ob("index", i, k.short(x.X, int(m), i, map[ssa.Value]bool{}), fmt.Sprintf("what follows %d elements of %s", m, valueName(x.X)))
					}
				}
			case *ssa.BinOp:
				if x.Op == token.QUO || x.Op == token.REM {
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						c, ok := x.Y.(*ssa.Const)
						zero := !ok || constant.Sign(c.Value) == 0

						if zero {
							for _, fa := range at(i) {
								if y, ok := fa.v.(*ssa.BinOp); ok && (sameValue(y.X, x.Y) || sameValue(y.Y, x.Y)) {
									zero = false
								}
							}
						}

						why := ""
						if zero {
							why = "the divisor may be zero"
						}

						ob("division", i, why, "divides")
					}
				}
			}

			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}

			if _, isB := ci.Common().Value.(*ssa.Builtin); isB {
				return
			}

			if ci.Common().IsInvoke() {
				need(ci.Common().Value, "calls "+ci.Common().Method.Name()+" of")
			} else if ci.Common().StaticCallee() == nil {
				need(ci.Common().Value, "calls")
			}

			for _, t := range k.g.callees(ci) {
				if raising[k.p.fname(t)] && !k.service(f) {
					constArgs := true

					for _, a := range ci.Common().Args {
						if _, ok := a.(*ssa.Const); !ok {
							constArgs = false
						}
					}

					if t.Name() == "NewRat" && len(ci.Common().Args) == 2 {
						if d, ok := ci.Common().Args[1].(*ssa.Const); ok && constant.Sign(d.Value) != 0 {
							constArgs = true
						}
					}

					why := ""
					if !constArgs {
						why = k.p.fname(t) + " raises an error for some arguments"
					}

					ob("library", i, why, "calls a function that may raise an error")
				}
			}
		})
	}

	k.c.atLeast("obligations", n, 100)
}

func valueName(v ssa.Value) string {
	s := canon(v)
	if strings.HasPrefix(s, "?") || s == "" {
		s = v.Type().String()
	}

	return s
}

// long explains why v may be empty.
func (k *crash) long(v ssa.Value, i ssa.Instruction) string {
	if atLeastLong(v, at(i)) >= 1 {
		return ""
	}

	// Within a loop over it, or after finding something in it.
	for _, f := range at(i) {
		if b, ok := f.v.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{b.X, b.Y} {
				if ph, ok := o.(*ssa.Phi); ok && ph.Type().Underlying() == types.Typ[types.Int] {
					return ""
				}
			}
		}
	}

	return k.short(v, 1, i, map[ssa.Value]bool{})
}

// selects: the panic a select statement without a default is lowered to.
func selects(x *ssa.Panic) bool {
	if mi, ok := x.X.(*ssa.MakeInterface); ok {
		if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			return strings.HasPrefix(constant.StringVal(c.Value), "blocking select")
		}
	}

	return false
}

// typed: the conversion is of something converted before, or just made.
func (k *crash) typed(x *ssa.TypeAssert) bool {
	if mi, ok := x.X.(*ssa.MakeInterface); ok && (types.Identical(mi.X.Type(), x.AssertedType) || isIface(x.AssertedType)) {
		return true
	}

	for _, f := range at(x) {
		e, ok := f.v.(*ssa.Extract)
		if !ok || !f.true || e.Index != 1 {
			continue
		}

		if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && types.Identical(ta.AssertedType, x.AssertedType) && sameValue(ta.X, x.X) {
			return true
		}
	}

	return false
}

// raised explains why the panic can happen, or is empty.
func (k *crash) raised(f *ssa.Function, x *ssa.Panic) string {
	if k.eval[f] && (k.service(f) || f.Pkg != nil && f.Pkg == k.p.pkg(relTask) || f.Parent() != nil) {
		return "" // the histories establish when it is called
	}

	if why, ok := k.startup(f, x); ok {
		return why
	}

	// Evaluate what leads here, from further and further away.
	seen := map[*ssa.Function]bool{}
	level := []*ssa.Function{f}
	below := map[*ssa.Function][]*ssa.Function{} // what a function leads here by

	for d := 0; d < 7 && len(level) > 0; d++ {
		var next []*ssa.Function

		for _, g := range level {
			if seen[g] {
				continue
			}

			seen[g] = true

			if d > 0 && k.harmless(g, nil, below[g]...) {
				continue
			}

			if k.root[g] != "" {
				return "reached from " + k.p.fname(g)
			}

			n := 0

			for _, ci := range k.g.callers(g) {
				if _, ok := k.via[ci.Parent()]; ok && k.exposed(ci.(ssa.Instruction)) && k.p.inModule(ci.Parent()) {
					n++

					if !k.harmless(g, ci, below[g]...) {
						next = append(next, ci.Parent())
						below[ci.Parent()] = append(below[ci.Parent()], g)
					}
				}
			}

			if n == 0 {
				return "reached from " + k.p.fname(g)
			}
		}

		level = next
	}

	if len(level) > 0 {
		return "what leads here does not exclude it"
	}

	return ""
}

// kinds lists the concrete types a value of an interface type may have; nil
// if that is not known.
func (k *crash) kinds(v ssa.Value, seen map[ssa.Value]bool) (ts []types.Type, ok bool) {
	if seen[v] {
		return nil, true
	}

	if len(seen) > 40 {
		return nil, false
	}

	seen[v] = true

	all := func(vs ...ssa.Value) ([]types.Type, bool) {
		var r []types.Type

		for _, v := range vs {
			ts, ok := k.kinds(v, seen)
			if !ok {
				return nil, false
			}

			r = append(r, ts...)
		}

		return r, true
	}

	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}, true
	case *ssa.ChangeInterface:
		return all(x.X)
	case *ssa.Phi:
		return all(x.Edges...)
	case *ssa.Parameter:
		var vs []ssa.Value

		n := -1

		for i, p := range x.Parent().Params {
			if p == x {
				n = i
			}
		}

		for _, ci := range k.g.callers(x.Parent()) {
			if !k.p.inModule(ci.Parent()) {
				return nil, false
			}

			if _, ok := k.via[ci.Parent()]; !ok || !k.exposed(ci.(ssa.Instruction)) {
				continue
			}

			if ci.Common().IsInvoke() || n >= len(ci.Common().Args) {
				return nil, false
			}

			vs = append(vs, ci.Common().Args[n])
		}

		if len(vs) == 0 {
			return nil, false
		}

		return all(vs...)
	case *ssa.Call:
		var vs []ssa.Value

		fs := k.g.callees(x)

		// The rest of a stack of results is one.
		if len(fs) == 1 && fs[0] == k.p.fn("internal/common/type/pair", "Cdr") {
			if u, ok := x.Call.Args[0].(*ssa.UnOp); ok {
				if _, ok := u.X.(*ssa.FieldAddr); ok {
					return all(u)
				}
			}
		}

		if len(fs) == 0 || x.Call.Signature().Results().Len() != 1 {
			return nil, false
		}

		for _, f := range fs {
			if !k.p.inModule(f) || f.Blocks == nil || f.Recover != nil {
				return nil, false
			}

			instrs(f, func(i ssa.Instruction) {
				if r, ok := i.(*ssa.Return); ok {
					vs = append(vs, r.Results[0])
				}
			})
		}

		return all(vs...)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}

		a := x.X

		if fv, ok := a.(*ssa.FreeVar); ok {
			f := fv.Parent()

			for i, o := range f.FreeVars {
				if o != fv || f.Parent() == nil {
					continue
				}

				instrs(f.Parent(), func(in ssa.Instruction) {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						a = mc.Bindings[i]
					}
				})
			}
		}

		var vs []ssa.Value

		switch a := a.(type) {
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					if s.Addr == a {
						vs = append(vs, s.Val)
					} else {
						return nil, false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					f := s.Fn.(*ssa.Function)

					for i, b := range s.Bindings {
						if b != a {
							continue
						}

						for _, r := range *f.FreeVars[i].Referrers() {
							switch t := r.(type) {
							case *ssa.Store:
								if t.Addr == f.FreeVars[i] {
									vs = append(vs, t.Val)
								}
							case *ssa.UnOp, *ssa.DebugRef:
							default:
								return nil, false
							}
						}
					}
				default:
					return nil, false
				}
			}
		case *ssa.FieldAddr:
			// Whatever is stored in the field of any such structure.
			id := fmt.Sprint(deref(a.X.Type()), a.Field)

			for s := range seen {
				if u, ok := s.(*ssa.UnOp); ok && u != x {
					if b, ok := u.X.(*ssa.FieldAddr); ok && fmt.Sprint(deref(b.X.Type()), b.Field) == id {
						return nil, true
					}
				}
			}

			for _, f := range k.p.Src {
				instrs(f, func(i ssa.Instruction) {
					if s, ok := i.(*ssa.Store); ok {
						if b, ok := s.Addr.(*ssa.FieldAddr); ok && fmt.Sprint(deref(b.X.Type()), b.Field) == id {
							vs = append(vs, s.Val)
						}
					}
				})
			}
		case *ssa.Global:
			for _, f := range k.p.Src {
				instrs(f, func(i ssa.Instruction) {
					if s, ok := i.(*ssa.Store); ok && s.Addr == a {
						vs = append(vs, s.Val)
					}
				})
			}
		}

		if len(vs) == 0 {
			return nil, false
		}

		return all(vs...)
	}

	return nil, false
}

// harmless: evaluating g, with any arguments or with those of a call, never
// ends in an error.
func (k *crash) harmless(g *ssa.Function, ci ssa.CallInstruction, through ...*ssa.Function) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()

	memo := g.String()
	if ci != nil {
		memo += fmt.Sprint("@", ci.Pos())
	}

	for _, f := range through {
		memo += " through " + f.String()
	}

	if r, found := k.tried[memo]; found {
		return r
	}

	defer func() { k.tried[memo] = ok }()

	t := newKit(&Check{P: k.p, Fns: map[string]bool{}, Counts: map[string]int{}})
	t.in.MaxSteps, t.in.MaxOuts, t.in.MaxVisit, t.in.MaxDepth = 20000, 200, 3, 12
	lens := []int{-1}

	var given []ssa.Value

	if ci != nil {
		if ci.Common().StaticCallee() != g || len(ci.Common().Args) != len(g.Params) {
			return false
		}

		given = ci.Common().Args
	} else if g.Signature.Variadic() {
		lens = []int{0, 1, 2, 3}
	}

	for _, n := range lens {
		st := t.st0.clone()

		var args []Val

		for i, p := range g.Params {
			switch u := p.Type().Underlying().(type) {
			case *types.Slice:
				if n >= 0 && i == len(g.Params)-1 {
					o := st.alloc(u.Elem(), "args")

					for m := 0; m < n; m++ {
						v := T(u.Elem(), fmt.Sprint("elem", m))
						nonNil(st, v)
						st.storeAt(o, fmt.Sprintf("[%d]", m), v, u.Elem())
					}

					args = append(args, &Slice{Root: o, Len: n, Cap: n})

					continue
				}
			}

			var v Val = T(p.Type(), "arg:"+p.Name())

			if given != nil {
				switch a := given[i].(type) {
				case *ssa.Const:
					if a.IsNil() {
						args = append(args, Nil{})

						continue
					}

					if a.Value != nil {
						v = Const{a.Value, a.Type()}
					}
				default:
					if isIface(p.Type()) {
						ts, known := k.kinds(a, map[ssa.Value]bool{})
						if !known || len(ts) == 0 {
							return false
						}

						for _, t := range ts[1:] {
							if !types.Identical(t, ts[0]) {
								return false
							}
						}

						u := T(ts[0], "arg:"+p.Name())
						nonNil(st, u)
						args = append(args, &Iface{ts[0], u})

						continue
					}

					if k.missing(a, ci.(ssa.Instruction), map[ssa.Value]bool{}) != "" {
						return false
					}
				}
			}

			nonNil(st, v)
			args = append(args, v)
		}

		outs := t.in.Call(st, g, args, nil, 0, false)
		if len(outs) == 0 || t.in.Truncs > 0 {
			return false
		}

		for _, o := range outs {
			if o.Kind != Ret {

				return false
			}
		}
	}

	// Nothing is learned from an evaluation that does not get there.
	for _, f := range through {
		if !t.in.Fns[f] && (ci == nil || communicates(t.in.Fns)) {
			return false
		}
	}

	return true
}

// communicates: what was evaluated may depend on other goroutines.
func communicates(fs map[*ssa.Function]bool) bool {
	found := false

	for g := range fs {
		instrs(g, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Send, *ssa.Select, *ssa.Go:
				found = true
			case *ssa.UnOp:
				found = found || x.Op == token.ARROW
			}
		})
	}

	return found
}

// startup: an error raised before the first command. What the system can
// refuse must not end the shell; what it is built with cannot be wrong.
func (k *crash) startup(f *ssa.Function, x *ssa.Panic) (string, bool) {
	top := f
	for top.Parent() != nil {
		top = top.Parent()
	}

	main := k.p.fn("", "main")
	boot := k.p.fn("internal/engine", "Boot")
	parse := k.p.fn("internal/system/options", "Parse")
	early := func(g *ssa.Function) bool {
		return g == boot || g == parse || strings.HasPrefix(g.Name(), "init") && g.Signature.Recv() == nil
	}

	// Everything that leads here must be early.
	seen := map[*ssa.Function]bool{}

	var only func(g *ssa.Function) bool

	only = func(g *ssa.Function) bool {
		if early(g) {
			return true
		}

		if seen[g] {
			return true
		}

		seen[g] = true

		if g == main || k.root[g] != "" {
			return false
		}

		n := 0

		for _, ci := range k.g.callers(g) {
			if k.p.inModule(ci.Parent()) {
				n++

				if !only(ci.Parent()) {
					return false
				}
			}
		}

		return n > 0
	}

	if !only(top) {
		return "", false
	}

	for _, fa := range at(x) {
		b, ok := fa.v.(*ssa.BinOp)
		if !ok {
			continue
		}

		for _, o := range []ssa.Value{b.X, b.Y} {
			var call *ssa.Call

			switch e := o.(type) {
			case *ssa.Extract:
				call, _ = e.Tuple.(*ssa.Call)
			case *ssa.Call:
				call = e
			}

			if call == nil || !isError(o.Type()) {
				continue
			}

			for _, t := range k.g.callees(call) {
				n := k.p.fname(t)
				for _, s := range []string{"os.", "(*os.", "path/filepath.", "syscall.", "golang.org/x/sys/", "os/user.", "github.com/peterh/liner"} {
					if strings.HasPrefix(n, s) {
						return "the shell cannot start when " + n + " fails", true
					}
				}
			}
		}
	}

	return "", true
}

// ends: the process is ended only where that was asked for.
func (k *crash) ends() {
	n := 0

	for _, f := range k.p.Src {
		instrs(f, func(i ssa.Instruction) {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}

			for _, t := range k.g.callees(ci) {
				switch k.p.fname(t) {
				case "os.Exit", "syscall.Exit", "golang.org/x/sys/unix.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
				default:
					continue
				}

				n++
				k.c.ob("end", k.p.fname(f), k.asked(i, 0), i.Pos(), "ends the process; must follow from the shell being told to exit, or from its command line")
			}
		})
	}

	k.c.atLeast("end", n, 1)
}

// asked: the call happens only when a task exited, or before any command runs.
func (k *crash) asked(i ssa.Instruction, d int) bool {
	for _, f := range at(i) {
		if !f.true {
			continue
		}

		v := f.v
		if e, ok := v.(*ssa.Extract); ok {
			v, _ = e.Tuple.(ssa.Value)
		}

		if call, ok := v.(*ssa.Call); ok {
			for _, t := range k.g.callees(call) {
				if t.Name() == "Exited" || k.tellsExit(t, map[*ssa.Function]bool{}) {
					return true
				}
			}
		}
	}

	f := i.Parent()
	if f.Parent() == nil && f.Pkg == k.p.pkg("") && k.commandLine(i) {
		return true
	}

	if d > 3 {
		return false
	}

	n := 0

	for _, ci := range k.g.callers(f) {
		if !k.p.inModule(ci.Parent()) {
			continue
		}

		n++

		if !k.asked(ci.(ssa.Instruction), d+1) {
			return false
		}
	}

	return n > 0
}

func (k *crash) tellsExit(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || !k.p.inModule(f) || len(f.Blocks) == 0 {
		return false
	}

	seen[f] = true
	found := false

	instrs(f, func(i ssa.Instruction) {
		r, ok := i.(*ssa.Return)
		if !ok {
			return
		}

		for _, v := range r.Results {
			if e, ok := v.(*ssa.Extract); ok {
				v, _ = e.Tuple.(ssa.Value)
			}

			if call, ok := v.(*ssa.Call); ok && types.Identical(v.Type(), types.Typ[types.Bool]) {
				for _, t := range k.g.callees(call) {
					if t.Name() == "Exited" || k.tellsExit(t, seen) {
						found = true
					}
				}
			}
		}
	})

	return found
}

// commandLine: nothing is evaluated before i in a function that is not the
// interactive loop.
func (k *crash) commandLine(i ssa.Instruction) bool {
	f := i.Parent()
	ok := true

	instrs(f, func(j ssa.Instruction) {
		ci, isCall := j.(ssa.CallInstruction)
		if !isCall || !canFollow(j, i) {
			return
		}

		for _, t := range k.g.callees(ci) {
			if t.Pkg == k.p.pkg("internal/engine") && (t.Name() == "Evaluate" || t.Name() == "System") {
				ok = false
			}

			if t.Name() == "Prompt" {
				ok = false
			}
		}
	})

	return ok
}

// canFollow: i may run after j.
func canFollow(j, i ssa.Instruction) bool {
	if j.Block() == i.Block() && before(j, i) {
		return true
	}

	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, j.Block().Succs...)

	for len(work) > 0 {
		b := work[0]
		work = work[1:]

		if seen[b] {
			continue
		}

		seen[b] = true

		if b == i.Block() {
			return true
		}

		work = append(work, b.Succs...)
	}

	return false
}
