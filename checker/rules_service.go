package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C11"] = rule{
		explain: "Each package that serves requests (functions sent on a channel to one goroutine) is checked for confinement: its package variables and the fields of its structures that ever change are touched only by the service loop, by functions it is sent, and by functions only those call. Requests are then evaluated, from several states, to see that every reply arrives, no reply is left without a receiver, and the service never waits for itself; nothing reachable from the service loop sends it a request or receives from a channel.",
		assume: []string{
			"the call graph is that of variable type analysis over the whole program",
			"writing to a command's standard output from the service is not counted as waiting",
		},
		run: checkC11,
	}
}

// service is one goroutine serving requests.
type service struct {
	p     *Program
	g     *Graph
	rel   string
	sp    *ssa.Package
	q     *ssa.Global // its channel of requests
	loops map[*ssa.Function]bool
	reqs  map[*ssa.Function]ssa.Instruction // request -> the instruction handing it over
	in    map[*ssa.Function]bool            // runs in the service only
	send  map[*ssa.Parameter]bool           // parameters that are only handed over
}

func isLoadOf(v ssa.Value, g *ssa.Global) bool {
	u, ok := v.(*ssa.UnOp)

	return ok && u.Op == token.MUL && u.X == g
}

func services(c *Check) (ss []*service) {
	p := c.P
	g := p.graph()

	for _, q := range p.Pkgs {
		sp := p.SSA.Package(q.Types)
		if sp == nil {
			continue
		}

		rel := strings.TrimPrefix(q.Types.Path(), p.Mod+"/")

		for _, gl := range globalsOf(p, rel) {
			if isFuncChan(deref(gl.Type())) {
				ss = append(ss, &service{p: p, g: g, rel: rel, sp: sp, q: gl, loops: map[*ssa.Function]bool{}, reqs: map[*ssa.Function]ssa.Instruction{}, in: map[*ssa.Function]bool{}, send: map[*ssa.Parameter]bool{}})
			}
		}
	}

	return
}

// own lists the functions of the service's package.
func (s *service) own() (fs []*ssa.Function) {
	for _, f := range s.p.Src {
		if k := fnPkg(f); k != nil && k == s.sp.Pkg {
			fs = append(fs, f)
		}
	}

	return
}

func (s *service) discover(c *Check) {
	own := s.own()

	type handed struct {
		v  ssa.Value
		at ssa.Instruction
	}

	var work []handed

	for _, f := range own {
		instrs(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Send:
				if isLoadOf(x.Chan, s.q) {
					work = append(work, handed{x.X, x})
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && isLoadOf(x.X, s.q) {
					s.loops[f] = true

					s.served(c, f, x, x)
				}
			case *ssa.Select:
				for n, st := range x.States {
					if st.Dir == types.SendOnly && isLoadOf(st.Chan, s.q) {
						work = append(work, handed{st.Send, x})
					}

					if st.Dir == types.RecvOnly && isLoadOf(st.Chan, s.q) {
						s.loops[f] = true

						k := 2
						for _, o := range x.States[:n] {
							if o.Dir == types.RecvOnly {
								k++
							}
						}

						var got ssa.Value

						for _, r := range *x.Referrers() {
							if e, ok := r.(*ssa.Extract); ok && e.Index == k {
								got = e
							}
						}

						if got == nil {
							c.fail("served", s.p.fname(f), x.Pos(), "a request is received and dropped")
						} else {
							s.served(c, f, x, got)
						}
					}
				}
			}
		})
	}

	for n := 0; len(work) > 0 && n < 1000; n++ {
		h := work[0]
		work = work[1:]

		switch v := h.v.(type) {
		case *ssa.MakeClosure:
			s.request(c, v.Fn.(*ssa.Function), v, h.at)
		case *ssa.Function:
			s.request(c, v, nil, h.at)
		case *ssa.Parameter:
			if s.send[v] {
				continue
			}

			s.send[v] = true

			idx := -1

			for i, p := range v.Parent().Params {
				if p == v {
					idx = i
				}
			}

			for _, site := range s.g.callers(v.Parent()) {
				if a := site.Common().Args; idx < len(a) && !site.Common().IsInvoke() {
					work = append(work, handed{a[idx], site})
				}
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				work = append(work, handed{e, h.at})
			}
		default:
			c.fail("request", s.p.fname(h.at.Parent()), h.at.Pos(), "sends the service a function whose origin is not known (%s)", h.v.Name())
		}
	}

	c.ob("served", s.rel, len(s.loops) == 1, s.q.Pos(), "%d functions serve requests, one expected", len(s.loops))
}

// served: a received request is called once and used for nothing else.
func (s *service) served(c *Check, f *ssa.Function, i ssa.Instruction, v ssa.Value) {
	calls, other := 0, 0

	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}

		if ci, ok := r.(*ssa.Call); ok && ci.Call.Value == v {
			calls++
		} else if ci, ok := r.(*ssa.Call); ok && ci.Call.StaticCallee() != nil && s.p.inModule(ci.Call.StaticCallee()) {
			// Handed to a helper that calls it.
			calls++
		} else {
			other++
		}
	}

	c.ob("served", s.p.fname(f), calls == 1 && other == 0, i.Pos(), "a received request is called at %d places and used otherwise at %d", calls, other)
}

func (s *service) request(c *Check, f *ssa.Function, mc *ssa.MakeClosure, at ssa.Instruction) {
	if _, ok := s.reqs[f]; ok {
		return
	}

	s.reqs[f] = at

	if mc == nil {
		// A named function may be called from anywhere.
		if len(s.g.callers(f)) > len(s.loops) {
			c.fail("request", s.p.fname(f), at.Pos(), "is handed to the service and also called elsewhere")
		}

		return
	}

	n := 0

	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			n++
		}
	}

	c.ob("request", s.p.fname(f), n == 1, at.Pos(), "a function handed to the service is used only there (%d uses)", n)
}

// confine finds the functions that only ever run in the service.
func (s *service) confine() {
	for f := range s.loops {
		s.in[f] = true
	}

	for f := range s.reqs {
		s.in[f] = true
	}

	loopCall := func(ci ssa.CallInstruction) bool {
		// The place where some service calls what it received.
		switch ci.Common().Value.(type) {
		case *ssa.UnOp:
			return ci.Common().Value.(*ssa.UnOp).Op == token.ARROW
		case *ssa.Extract:
			_, ok := ci.Common().Value.(*ssa.Extract).Tuple.(*ssa.Select)

			return ok
		}

		return false
	}

	cand := map[*ssa.Function]bool{}

	for _, f := range s.own() {
		if !s.in[f] && f.Synthetic == "" {
			cand[f] = true
		}
	}

	for changed := true; changed; {
		changed = false

		for f := range cand {
			ok := true
			n := 0

			for _, ci := range s.g.callers(f) {
				if loopCall(ci) && !s.loops[ci.Parent()] {
					continue
				}

				n++

				if _, isGo := ci.(*ssa.Go); isGo || !s.in[ci.Parent()] && !cand[ci.Parent()] {
					ok = false
				}
			}

			if n == 0 || !ok {
				delete(cand, f)

				changed = true
			}
		}
	}

	for f := range cand {
		s.in[f] = true
	}
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}

	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// use is one access to a package variable or structure field.
type svcUse struct {
	f     *ssa.Function
	i     ssa.Instruction
	what  string
	write bool
	chans bool
}

func (s *service) uses(fr *freshness) (us []svcUse) {
	spread := func(f *ssa.Function, v ssa.Value, what string) {
		// Uses of the map or slice held there.
		if v.Referrers() == nil {
			return
		}

		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.MapUpdate:
				if y.Map == v {
					us = append(us, svcUse{f, y, what, true, false})
				}
			case *ssa.Lookup:
				us = append(us, svcUse{f, y, what, false, false})
			case *ssa.Range:
				us = append(us, svcUse{f, y, what, false, false})
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					us = append(us, svcUse{f, y, what, true, false})
				}
			}
		}
	}

	for _, f := range s.p.Src {
		f := f

		instrs(f, func(i ssa.Instruction) {
			for _, op := range i.Operands(nil) {
				gl, ok := (*op).(*ssa.Global)
				if !ok || gl.Pkg != s.sp {
					continue
				}

				_, isChan := deref(gl.Type()).Underlying().(*types.Chan)
				what := "variable " + gl.Name()

				switch x := i.(type) {
				case *ssa.UnOp:
					us = append(us, svcUse{f, x, what, false, isChan})
					spread(f, x, what)
				case *ssa.Store:
					us = append(us, svcUse{f, x, what, true, isChan})
				case *ssa.DebugRef:
				default:
					us = append(us, svcUse{f, i, what, true, isChan})
				}
			}

			fa, ok := i.(*ssa.FieldAddr)
			if !ok {
				return
			}

			n := namedOf(deref(fa.X.Type()))
			if n == nil || n.Obj().Pkg() != s.sp.Pkg || fr.fresh(fa.X, 0) {
				return
			}

			what := "field " + n.Obj().Name() + "." + fieldOfPtr(fa.X.Type(), fa.Field)

			for _, r := range *fa.Referrers() {
				switch x := r.(type) {
				case *ssa.UnOp:
					us = append(us, svcUse{f, x, what, false, false})
					spread(f, x, what)
				case *ssa.DebugRef:
				default:
					us = append(us, svcUse{f, r, what, true, false})
				}
			}
		})
	}

	return
}

func checkC11(c *Check) {
	p := c.P
	ss := services(c)
	c.atLeast("services", len(ss), 2)

	fr := &freshness{p: p, memo: map[ssa.Value]bool{}}

	for _, s := range ss {
		s.discover(c)
		s.confine()
		c.count("requests", len(s.reqs))

		us := s.uses(fr)
		mutable := map[string]bool{}

		for _, u := range us {
			if u.write && !isInitFn(u.f) && !u.chans {
				mutable[u.what] = true
			}
		}

		n := 0

		for _, u := range us {
			if u.chans {
				// Channels are set before the goroutine that uses them starts.
				if u.write && !isInitFn(u.f) {
					c.ob("confined", s.rel+" "+u.what+" in "+p.fname(u.f), beforeGo(u.i), u.i.Pos(), "the channel is replaced where the service may already be using it")
				}

				continue
			}

			if !mutable[u.what] || isInitFn(u.f) {
				continue
			}

			n++

			verb := "read"
			if u.write {
				verb = "changed"
			}

			c.ob("confined", s.rel+" "+u.what+" in "+p.fname(u.f), s.in[u.f], u.i.Pos(), "%s is %s by a function that can run outside the goroutine that owns it", u.what, verb)
		}

		c.atLeast("confined in "+s.rel, n, 4)
		s.shared(c)
		s.waits(c)
		s.foreign(c)
	}

	checkReplies(c, ss)
}

// beforeGo: the instruction happens before its function starts a goroutine.
func beforeGo(i ssa.Instruction) bool {
	f := i.Parent()

	var goes []ssa.Instruction

	instrs(f, func(j ssa.Instruction) {
		if _, ok := j.(*ssa.Go); ok {
			goes = append(goes, j)
		}
	})

	if len(goes) == 0 {
		return false
	}

	for _, g := range goes {
		if g.Block() == i.Block() {
			for _, x := range i.Block().Instrs {
				if x == g {
					return false
				}

				if x == i {
					break
				}
			}
		} else if !i.Block().Dominates(g.Block()) {
			return false
		}
	}

	return true
}

// shared: a variable captured by a request is not touched by the requester
// between handing it over and receiving a reply, if either side changes it.
func (s *service) shared(c *Check) {
	for f, at := range s.reqs {
		var mc *ssa.MakeClosure

		instrs(at.Parent(), func(i ssa.Instruction) {
			if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == f {
				mc = m
			}
		})

		if mc == nil {
			continue
		}

		for n, b := range mc.Bindings {
			a, ok := b.(*ssa.Alloc)
			if !ok {
				continue
			}

			inside := writes(f.FreeVars[n], map[ssa.Value]bool{})

			var bad ssa.Instruction

			after(at, func(i ssa.Instruction) bool {
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW {
					return false
				}

				if i == ssa.Instruction(mc) {
					return false // a new round makes a new request
				}

				switch x := i.(type) {
				case *ssa.Store:
					if x.Addr == a {
						bad = i
					}
				case *ssa.UnOp:
					if x.X == a && inside {
						bad = i
					}
				case *ssa.MakeClosure:
					for k, y := range x.Bindings {
						if y == a && (inside || writes(x.Fn.(*ssa.Function).FreeVars[k], map[ssa.Value]bool{})) {
							bad = i
						}
					}
				}

				return true
			})

			pos := at.Pos()
			if bad != nil {
				pos = bad.Pos()
			}

			c.ob("handed-over", s.p.fname(f)+" "+a.Comment, bad == nil, pos, "a variable captured by a request is used by the requester while the service may be changing it")
		}
	}
}

func writes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}

	seen[v] = true

	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			for k, b := range x.Bindings {
				if b == v && writes(x.Fn.(*ssa.Function).FreeVars[k], seen) {
					return true
				}
			}
		}
	}

	return false
}

// after visits the instructions that may follow i until visit says no.
func after(i ssa.Instruction, visit func(ssa.Instruction) bool) {
	seen := map[*ssa.BasicBlock]bool{}

	var walk func(b *ssa.BasicBlock, from int)

	walk = func(b *ssa.BasicBlock, from int) {
		for _, x := range b.Instrs[from:] {
			if !visit(x) {
				return
			}
		}

		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true

				walk(s, 0)
			}
		}
	}

	for k, x := range i.Block().Instrs {
		if x == i {
			walk(i.Block(), k+1)
		}
	}
}

// reached lists what may run in the service, requests and callbacks included.
func (s *service) reached() map[*ssa.Function]*ssa.Function {
	out := map[*ssa.Function]*ssa.Function{}

	roots := map[*ssa.Function]bool{}
	for f := range s.reqs {
		roots[f] = true
	}

	for f := range s.loops {
		instrs(f, func(i ssa.Instruction) {
			ci, ok := i.(*ssa.Call)
			if !ok || ci.Call.StaticCallee() == nil {
				return
			}

			roots[ci.Call.StaticCallee()] = true
		})
	}

	for r := range roots {
		for f := range s.g.reach(r, func(x *ssa.Function) bool { return !s.p.inModule(x) || s.loops[x] }) {
			if f.Blocks != nil && s.p.inModule(f) {
				out[f] = r
			}
		}
	}

	return out
}

// waits: nothing the service runs waits for a channel or for the service.
func (s *service) waits(c *Check) {
	fs := s.reached()

	for f, root := range fs {
		ok := true

		instrs(f, func(i ssa.Instruction) {
			bad := ""

			switch x := i.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					bad = "receives from a channel"
				}
			case *ssa.Select:
				if x.Blocking {
					bad = "waits on channels"
				}
			case *ssa.Send:
				if isLoadOf(x.Chan, s.q) {
					bad = "sends the service a request"
				}
			case *ssa.Call:
				if cal := x.Call.StaticCallee(); cal != nil && !s.p.inModule(cal) {
					switch n := s.p.fname(cal); n {
					case "time.Sleep", "(*sync.WaitGroup).Wait", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Run", "(*os.Process).Wait":
						bad = "calls " + n
					}
				}
			}

			if bad != "" {
				ok = false

				c.fail("no-waiting", s.p.fname(f), i.Pos(), "%s, and can run in the service (through %s)", bad, s.p.fname(root))
			}
		})

		if ok {
			c.pass("no-waiting", s.p.fname(f), "runs in the service and waits for nothing")
		}
	}

	c.count("functions_run_by_services", len(fs))
}

// foreign: the registers of a task belong to the goroutine running it.
func (s *service) foreign(c *Check) {
	for f, root := range s.reached() {
		instrs(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}

			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}

			n := namedOf(deref(fa.X.Type()))
			if n == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/"+relTask) || n.Obj().Name() != "registers" && n.Obj().Name() != "stack" && n.Obj().Name() != "T" {
				return
			}

			c.fail("foreign", s.p.fname(f), i.Pos(), "changes %s.%s of a task another goroutine may be running (through %s)", n.Obj().Name(), fieldOfPtr(fa.X.Type(), fa.Field), s.p.fname(root))
		})
	}

	c.pass("foreign", s.rel, "nothing run by the service changes a task's registers")
}

// checkReplies evaluates every exported operation that makes requests.
func checkReplies(c *Check, ss []*service) {
	for _, s := range ss {
		ops := map[*ssa.Function]bool{}

		for _, f := range s.own() {
			if f.Object() == nil || !f.Object().Exported() {
				continue
			}

			for g := range s.g.reach(f, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x) != s.sp.Pkg || s.in[x] }) {
				instrs(g, func(i ssa.Instruction) {
					if x, ok := i.(*ssa.Send); ok && isLoadOf(x.Chan, s.q) {
						ops[f] = true
					}
				})
			}
		}

		var names []*ssa.Function
		for f := range ops {
			names = append(names, f)
		}

		sort.Slice(names, func(i, j int) bool { return names[i].String() < names[j].String() })
		c.atLeast("replies of "+s.rel, len(names), 3)

		var j *jobs

		if s.rel == relJob {
			j = newJobs(c)
		} else {
			j = &jobs{sim: newSim(c, s.rel)}
			j.in.MaxVisit = 3
		}

		j.tags()

		states := []string{"at first"}
		if s.rel == relJob {
			states = []string{"at first", "with a foreground job", "with a stopped job"}
		}

		for _, f := range names {
			for _, state := range variants(f, states) {
				f, state, odd := f, strings.TrimSuffix(state, unknownNumber), strings.HasSuffix(state, unknownNumber)

				if s.rel != relJob {
					j.fewer(f)
				}

				j.explore("replies", c.P.fname(f)+" "+state, func(q *seq) {
					var job, main Val = Nil{}, Nil{}

					switch state {
					case "with a foreground job":
						job, main, _ = j.session(q)
						j.children(q, job, main, 1)
					case "with a stopped job":
						job, main, _ = j.session(q)
						kid := j.children(q, job, main, 1)[0]
						q.ok(isNil(j.execute(q, kid, 100)), "started")
						q.child(report(100, wStopped, 20))
						j.serve(q, "SIGCHLD")
						q.call(j.jm("Stopped"), job, kid)
						q.call(j.jm("Stopped"), job, main)
						job, main, _ = j.session(q)
					}

					var args []Val

					for _, p := range f.Params {
						a := j.arg(q, p.Type(), job, main)
						if _, isInt := asInt(a); isInt && odd {
							a = cInt(99)
						}

						args = append(args, a)
					}

					q.st.User["tracking"] = cBool(true)
					q.call(f, args...)

					var left []string

					for k, v := range q.st.User {
						if strings.HasPrefix(k, "chan:") && len(v.(Tuple)) > 0 && q.st.User["tracked:"+k] != nil {
							left = append(left, fmt.Sprint(len(v.(Tuple))))
						}
					}

					q.ok(len(left) == 0, "every reply the service sends is received (%d channels hold more: the service would wait forever)", len(left))
				})
			}
		}

		c.enter(j.in)
	}
}

// fewer finds how often a loop of f can be followed within the budget.
func (j *jobs) fewer(f *ssa.Function) {
	for j.in.MaxVisit = 3; j.in.MaxVisit > 1; j.in.MaxVisit-- {
		if j.affordable(f) {
			return
		}
	}
}

func (j *jobs) affordable(f *ssa.Function) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(budgetError); !is {
				panic(r)
			}

			ok = false
		}
	}()

	q := &seq{sim: j.sim, st: j.st0.clone()}
	j.in.Steps = 0

	var args []Val

	for _, p := range f.Params {
		args = append(args, j.arg(q, p.Type(), Nil{}, Nil{}))
	}

	return len(j.in.Call(q.st, f, args, nil, 0, false)) < 3000
}

const unknownNumber = " and an unknown number"

// variants adds, for operations taking a number, one nothing has.
func variants(f *ssa.Function, states []string) (out []string) {
	for _, s := range states {
		out = append(out, s)

		for _, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				out = append(out, s+unknownNumber)

				break
			}
		}
	}

	return
}

// tags records which channels were sent to during the operation itself.
func (j *jobs) tags() {
	base := j.in.Chan
	j.in.Chan = func(c *CallCtx, op string, ch, v Val) ([]Out, bool) {
		if op == "send" && c.St.User["tracking"] != nil && asTerm(ch) != nil && unbuffered(ch) {
			c.St.User["tracked:chan:"+ch.Key()] = cBool(true)
		}

		return base(c, op, ch, v)
	}
}

func unbuffered(ch Val) bool {
	t := asTerm(ch)
	if t == nil || t.Op != "chan" || len(t.Args) == 0 {
		return true
	}

	n, ok := asInt(t.Args[0])

	return !ok || n == 0
}

// arg is an argument of the wanted type.
func (j *jobs) arg(q *seq, t types.Type, job, main Val) Val {
	if j.taskT != nil && types.Identical(t, j.taskT) {
		if isNil(main) {
			main = j.task(q)
		}

		return main
	}

	if j.jobT != nil && types.Identical(t, j.jobT) {
		if isNil(job) {
			job = j.newJob(q, "New")
			q.st.User["job"] = job
		}

		return job
	}

	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return cInt(0)
		}

		return T(t, "argument")
	case *types.Signature:
		return j.cb("argument")
	case *types.Slice:
		return Nil{}
	case *types.Pointer:
		return P(&Obj{ID: "argument!" + q.st.fresh(), T: u.Elem(), Sym: true}, "")
	}

	v := T(t, "argument")
	nonNil(q.st, v)

	return v
}
