package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C12"] = rule{
		explain: "The task state operations are evaluated from every one of their states and compared with the wait/notify/stop protocol. The job service is then evaluated, request by request, through scenarios that spawn, await, start, signal, stop, continue and complete tasks and processes in every order: each awaiting callback must run exactly once, when the last awaited task has completed and not before, and each process's status must reach the task that started it exactly once.",
		assume: []string{
			"requests are atomic: one goroutine serves them (C11)",
			"up to three tasks, two waiters and two processes at a time stand for more; maps are ranged over in both directions",
			"the kernel reports a child's changes in order and reuses a process number only after reporting its end",
		},
		run: checkC12,
	}
	rules["C26"] = rule{
		explain: "The job service is evaluated through scenarios with interrupt and stop signals, stopped processes, and resumption by fg and bg.",
		assume:  []string{"as C12"},
		run:     checkC26,
	}
}

const (
	relTask = "internal/engine/task"
	relJob  = "internal/system/job"
)

// jobs is a simulation of the job service with tasks.
type jobs struct {
	*sim
	R, S, W, E string // places of the boolean state of a task
	monitor    Val    // the service loop
	signals    Val    // its signal channel
	requests   Val
	ready      *State
	taskT      types.Type
	jobT       types.Type
}

const (
	wExited    = 0
	wSignaled  = 1
	wStopped   = 2
	wContinued = 3
)

// wstatus is a wait status as the system reports it.
func wstatus(kind, n int) Val {
	switch kind {
	case wExited:
		return cInt(int64(n << 8))
	case wSignaled:
		return cInt(int64(n))
	case wStopped:
		return cInt(int64(n<<8 | 0x7f))
	}

	return cInt(0xffff)
}

func waitBits(name string, ws int64) (Val, bool) {
	ws &= 0xffffffff
	low := ws & 0x7f
	stopped := ws&0xff == 0x7f
	exited := low == 0
	signaled := low != 0x7f && low != 0 && ws != 0xffff
	cont := ws == 0xffff

	num := func(ok bool, n int64) Val {
		if !ok {
			n = -1
		}

		return cInt(n)
	}

	switch name {
	case "Exited":
		return cBool(exited), true
	case "Signaled":
		return cBool(signaled), true
	case "Stopped":
		return cBool(stopped && !cont), true
	case "Continued":
		return cBool(cont), true
	case "CoreDump":
		return cBool(signaled && ws&0x80 != 0), true
	case "ExitStatus":
		return num(exited, ws>>8&0xff), true
	case "Signal":
		return num(signaled, low), true
	case "StopSignal":
		return num(stopped && !cont, ws>>8&0xff), true
	}

	return nil, false
}

func newJobs(c *Check) *jobs {
	j := &jobs{sim: newSim(c, relJob)}
	in := j.in
	in.MaxVisit = 6
	j.taskT, j.jobT = j.ptrT(relTask, "T"), j.ptrT(relJob, "T")

	in.Hooks["math/big.NewRat"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, T(c.Res, "nonnil", T(c.Res, "rat", c.Args...))), true
	}

	for _, n := range []string{"Signal", "Broadcast"} {
		in.Hooks["(*sync.Cond)."+n] = func(c *CallCtx) ([]Out, bool) {
			c.St.event("signal", c.Args[0].Key(), c.From, c.Pos, nil, c.Args...)

			return ret(c.St, Tuple{}), true
		}
	}

	for _, n := range []string{"SetForegroundGroup", "Group", "ForegroundGroup", "Continue", "Stop", "Interrupt", "Terminate", "SysProcAttr"} {
		n := n
		in.Hooks["internal/system/process."+n] = func(c *CallCtx) ([]Out, bool) {
			v := c.freshRes(n)
			if n == "Group" {
				v = cInt(7000)
			}

			c.St.event("process", n, c.From, c.Pos, v, c.Args...)

			return ret(c.St, v), true
		}
	}

	in.Hooks["internal/system/options.Monitor"] = func(c *CallCtx) ([]Out, bool) {
		v, ok := c.St.User["monitor"]
		if !ok {
			v = cBool(true)
		}

		return ret(c.St, v), true
	}

	in.Hooks["os.StartProcess"] = func(c *CallCtx) ([]Out, bool) {
		q, _ := c.St.User["start"].(Tuple)
		c.St.event("start", "os.StartProcess", c.From, c.Pos, nil, c.Args...)

		if len(q) == 0 || isNil(q[0]) {
			if len(q) > 0 {
				c.St.User["start"] = append(Tuple{}, q[1:]...)
			}

			e, ok := c.St.User["start-error"]
			if !ok {
				e = T(c.Res.(*types.Tuple).At(1).Type(), "start-error")
				nonNil(c.St, e)
			}

			return ret(c.St, Tuple{Nil{}, e}), true
		}

		c.St.User["start"] = append(Tuple{}, q[1:]...)
		tu := c.Res.(*types.Tuple)
		pt := tu.At(0).Type()
		o := &Obj{ID: "process!" + c.St.fresh(), T: deref(pt), Sym: true}
		c.St.storeAt(o, ".Pid", q[0], types.Typ[types.Int])

		return ret(c.St, Tuple{P(o, ""), Nil{}}), true
	}

	for _, pkg := range []string{"golang.org/x/sys/unix", "syscall"} {
		in.Hooks[pkg+".Wait4"] = func(c *CallCtx) ([]Out, bool) {
			q, _ := c.St.User["wait4"].(Tuple)
			if len(q) == 0 {
				return ret(c.St, Tuple{cInt(0), Nil{}}), true
			}

			e := q[0].(Tuple)
			c.St.User["wait4"] = append(Tuple{}, q[1:]...)

			if p, path, ok := addr(c.Args[1]); ok {
				c.St.storeAt(p, path, e[1], types.Typ[types.Uint32])
			}

			return ret(c.St, Tuple{e[0], Nil{}}), true
		}

		for _, n := range []string{"Exited", "Signaled", "Stopped", "Continued", "CoreDump", "ExitStatus", "Signal", "StopSignal"} {
			n := n
			in.Hooks["("+pkg+".WaitStatus)."+n] = func(c *CallCtx) ([]Out, bool) {
				ws, ok := asInt(c.Args[0])
				if !ok {
					return nil, false
				}

				v, ok := waitBits(n, ws)

				return ret(c.St, v), ok
			}
		}
	}

	quiet := in.Chan
	in.Chan = func(c *CallCtx, op string, ch, v Val) ([]Out, bool) {
		if op == "recv" && ch.Key() == valOr(j.signals).Key() {
			op = "select"
			ch = Tuple{ch}
		}

		if op != "select" {
			return quiet(c, op, ch, v)
		}

		q, _ := c.St.User["script"].(Tuple)
		if len(q) == 0 {
			return []Out{{St: c.St, Kind: Stop, Why: "script over", Pos: c.Pos, Val: Nil{}}}, true
		}

		item := q[0].(Tuple)
		chs, _ := ch.(Tuple)

		for i, x := range chs {
			if x.Key() == item[0].Key() {
				c.St.User["script"] = append(Tuple{}, q[1:]...)
				c.St.event("served", "", c.From, c.Pos, item[1])

				return ret(c.St, Tuple{cInt(int64(i)), cBool(true), item[1]}), true
			}
		}

		return []Out{{St: c.St, Kind: Stop, Why: "the service does not listen on a channel it is sent " + show(item[0]), Pos: c.Pos, Val: Nil{}}}, true
	}

	j.explore("C12.start", "job.Monitor", func(q *seq) {
		e := q.st.ev
		q.call(q.fn(relJob, "Monitor"))

		for _, x := range q.since(e) {
			if x.Kind == "go" {
				j.monitor = x.Args[0]
			}

			if x.Kind == "call" && x.Name == "os/signal.Notify" {
				j.signals = x.Args[0]
			}
		}

		if j.monitor == nil || j.signals == nil {
			panic(budgetError{"job.Monitor does not start a service and register signals"})
		}

		j.ready = q.st
	})

	if j.ready == nil {
		panic(budgetError{"job.Monitor has no path"})
	}

	j.st0 = j.ready.freeze()

	// What each boolean of a task means is read off the operations.
	j.explore("C12.roles", "task state", func(q *seq) {
		for _, r := range []struct {
			op   string
			role *string
			pre  string
		}{{"Started", &j.R, ""}, {"Wait", &j.W, ""}, {"Exit", &j.E, ""}, {"Stop", &j.S, "Started"}} {
			t := j.task(q)
			if r.pre != "" {
				q.call(j.meth(r.pre), t)
			}

			before := j.bools(q.st, t)
			q.call(j.meth(r.op), t)

			var flipped []string

			for k, v := range j.bools(q.st, t) {
				if v && !before[k] {
					flipped = append(flipped, k)
				}
			}

			if len(flipped) != 1 {
				panic(budgetError{fmt.Sprintf("%s sets %d flags of a fresh task, one expected", r.op, len(flipped))})
			}

			*r.role = flipped[0]
		}
	})

	return j
}

func (j *jobs) meth(n string) *ssa.Function { return j.method(relTask, "T", n) }
func (j *jobs) jm(n string) *ssa.Function   { return j.method(relJob, "T", n) }

// task makes a task with one operation left to do.
func (j *jobs) task(q *seq) Val {
	mon := q.st.User["job"]
	if mon == nil {
		mon = Nil{}
	} else {
		mon = &Iface{j.jobT, mon}
	}

	t := q.call(q.fn(relTask, "New"), mon, Nil{}, Nil{})
	opT := j.p.typ(relTask, "Action")

	if opT == nil {
		panic(budgetError{"type task.Action not found"})
	}

	op := T(opT, "nonnil", T(opT, "operation"))
	q.call(j.meth("PushOp"), t, &Iface{opT, op})

	return t
}

func (j *jobs) bools(st *State, t Val) map[string]bool {
	m := map[string]bool{}

	j.boolFields(st, t, deref(j.taskT), 0, func(name string, root Val, path string) {
		b, _ := asBool(st.norm(st.loadAt(root, path, types.Typ[types.Bool])))
		m[name] = b
	})

	return m
}

func (j *jobs) set(st *State, t Val, flags map[string]bool) {
	j.boolFields(st, t, deref(j.taskT), 0, func(name string, root Val, path string) {
		if v, ok := flags[name]; ok {
			st.storeAt(root, path, cBool(v), types.Typ[types.Bool])
		}
	})
}

// finish marks the task's work as done.
func (j *jobs) finish(q *seq, t Val) {
	done, ok := asBool(q.call(j.meth("Completed"), t))
	if !ok {
		panic(budgetError{"whether a task is complete is not known"})
	}

	if !done {
		q.call(j.meth("RemoveOp"), t)
	}
}

// complete is a task running to its end.
func (j *jobs) complete(q *seq, t Val) {
	j.finish(q, t)
	q.call(j.jm("Stopped"), q.st.User["job"], t)
}

func (j *jobs) newJob(q *seq, ctor string) Val {
	v := q.call(q.fn(relJob, ctor), cInt(0))
	q.st.User["job"] = v

	return v
}

func (j *jobs) cb(n string) Val {
	t := types.NewSignatureType(nil, nil, nil, nil, nil, false)

	return T(t, "nonnil", T(t, "callback:"+n))
}

func (j *jobs) await(q *seq, fn, p Val, ts ...Val) {
	var arg Val = Nil{}
	if len(ts) > 0 {
		arg = q.slice(j.taskT, ts...)
	}

	q.call(j.jm("Await"), q.st.User["job"], fn, p, arg)
}

// serve runs the service loop on the given signals.
func (j *jobs) serve(q *seq, sigs ...string) {
	var sc Tuple
	for _, s := range sigs {
		sc = append(sc, Tuple{j.signals, j.signal(s)})
	}

	q.st.User["script"] = sc
	f := j.monitor.(*Fn)
	o := q.outB(f.F, f.B)

	if o.Kind != Stop || o.Why != "script over" {
		q.c.fail(q.rule, q.on, o.Pos, "the service ends or fails: %s %s %s", o.Kind, o.Why, show(valOr(o.Val)))

		panic(abandon{})
	}
}

func (j *jobs) signal(name string) Val {
	var pkg *types.Package

	for _, p := range j.p.SSA.AllPackages() {
		if p.Pkg.Path() == "syscall" {
			pkg = p.Pkg
		}
	}

	if pkg == nil {
		panic(budgetError{"package syscall is not loaded"})
	}

	k, ok := pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(budgetError{"no syscall." + name})
	}

	return &Iface{k.Type(), Const{constant.ToInt(k.Val()), k.Type()}}
}

// child is what the system will report of child processes.
func (q *seq) child(evs ...Tuple) {
	t, _ := q.st.User["wait4"].(Tuple)
	t = append(Tuple{}, t...)

	for _, e := range evs {
		t = append(t, e)
	}

	q.st.User["wait4"] = t
}

func report(pid, kind, n int) Tuple { return Tuple{cInt(int64(pid)), wstatus(kind, n)} }

// execute asks for a process to be started for t; pid 0 is a failure.
func (j *jobs) execute(q *seq, t Val, pid int) Val {
	var p Val = Nil{}
	if pid != 0 {
		p = cInt(int64(pid))
	}

	errT := types.Universe.Lookup("error").Type()
	e := T(errT, "start-error")
	nonNil(q.st, e)
	q.st.User["start-error"] = e
	q.st.User["start"] = Tuple{p}

	at := j.p.extType("os", "ProcAttr")
	if at == nil {
		panic(budgetError{"os.ProcAttr is not loaded"})
	}

	attr := P(&Obj{ID: "attr!" + q.st.fresh(), T: at}, "")

	return q.call(j.jm("Execute"), q.st.User["job"], t, cStr("/bin/x"), q.slice(types.Typ[types.String], cStr("x")), attr)
}

// statusIs reports whether v is the status n.
func (j *jobs) statusIs(v Val, n int) bool {
	i, ok := v.(*Iface)
	if !ok || !strings.HasSuffix(tstr(i.T), "type/status.T") {
		return false
	}

	return i.V.Key() == T(nil, "nonnil", T(nil, "rat", cInt(int64(n)), cInt(1))).Key()
}

func (j *jobs) value(q *seq, t Val) Val { return q.call(j.meth("Value"), t) }

func (j *jobs) waiting(q *seq, t Val) bool { return j.bools(q.st, t)[j.W] }

// runs counts how often t was set running since e.
func (j *jobs) runs(q *seq, t Val, e *Ev) int {
	n := 0

	for _, x := range q.since(e) {
		if x.Kind == "go" && strings.HasSuffix(x.Name, ".Run") && len(x.Args) > 1 && x.Args[1].Key() == t.Key() {
			n++
		}
	}

	return n
}

// sent counts process operations on pid.
func (q *seq) sent(op string, pid int, e *Ev) int {
	n := 0

	for _, x := range q.since(e) {
		if x.Kind == "process" && x.Name == op && len(x.Args) > 0 {
			if p, ok := asInt(x.Args[0]); ok && int(p) == pid {
				n++
			}
		}
	}

	return n
}

func checkC12(c *Check) {
	j := newJobs(c)

	j.checkState()
	j.checkRun()

	for _, rev := range []bool{false, true} {
		j.in.Reverse = rev
		j.checkAwait()
		j.checkStatus()
	}

	c.enter(j.in)
}

// checkState compares each operation of a task's state with the protocol,
// from every state.
func (j *jobs) checkState() {
	// The condition a waiting task sleeps on, by trying it.
	var sleeps Val

	scripts := [][2]bool{{true, false}, {false, false}, {true, true}, {false, true}} // waiting, stopping after a wake

	// What a task waits for that is started while it is about to report that
	// it stopped.
	var startsOn Val

	starting := false

	j.in.Hooks["(*sync.Cond).Wait"] = func(c *CallCtx) ([]Out, bool) {
		if starting {
			startsOn = c.Args[0]
		} else {
			sleeps = c.Args[0]
		}

		n, _ := asInt(valOr(c.St.User["sleeps"]))
		if n >= 3 {
			return []Out{{St: c.St, Kind: Trunc, Why: "wake bound"}}, true
		}

		var outs []Out

		for _, s := range scripts {
			st := c.St.clone()
			st.User["sleeps"] = cInt(n + 1)

			if starting {
				// Another may start it first.
				j.set(st, st.User["self"], map[string]bool{j.R: s[0], j.S: s[1]})
				st.User["started"] = cBool(s[0])
			} else {
				j.set(st, st.User["self"], map[string]bool{j.W: s[0], j.S: s[1]})
			}

			st.event("slept", "", c.From, c.Pos, nil, c.Args...)
			outs = append(outs, Out{St: st, Kind: Ret, Val: Tuple{}})
		}

		return outs, true
	}

	defer delete(j.in.Hooks, "(*sync.Cond).Wait")

	names := []string{"Runnable", "Started", "Wait", "Notify", "Value", "Stopped", "Exit", "Exited", "Stop", "Interrupt"}

	for _, op := range names {
		for mask := 0; mask < 16; mask++ {
			R, S, W, E := mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0
			on := fmt.Sprintf("%s from R%d S%d W%d E%d", op, b2i(R), b2i(S), b2i(W), b2i(E))

			j.explore("C12.state", on, func(q *seq) {
				t := j.task(q)
				j.set(q.st, t, map[string]bool{j.R: R, j.S: S, j.W: W, j.E: E})
				q.st.User["self"] = t

				args := []Val{t}

				var v Val

				if op == "Notify" {
					ct := j.p.typ("internal/common/interface/cell", "I")
					v = T(ct, "STATUS")
					nonNil(q.st, v)
					args = append(args, v)
				}

				e := q.st.ev
				starting = op == "Started"
				o := q.out(j.meth(op), args...)
				starting = false
				raises := o.Kind == Panic

				if o.Kind == Stop {
					q.must(j.meth(op), o)
				}

				got := j.bools(q.st, t)
				r := q.st.norm(valOr(o.Val))
				slept, woke, told := 0, 0, 0

				for _, x := range q.since(e) {
					if x.Kind == "slept" {
						slept++
					}

					if x.Kind == "signal" && startsOn != nil && x.Args[0].Key() == startsOn.Key() {
						told++
					}

					if x.Kind == "signal" && sleeps != nil && x.Args[0].Key() == sleeps.Key() {
						woke++
					}
				}

				is := func(r, s, w, e bool) bool {
					return got[j.R] == r && got[j.S] == s && got[j.W] == w && got[j.E] == e
				}

				now := fmt.Sprintf("now R%d S%d W%d E%d, raises %v, sleeps %d, wakes %d", b2i(got[j.R]), b2i(got[j.S]), b2i(got[j.W]), b2i(got[j.E]), raises, slept, woke)

				switch op {
				case "Started":
					// Whoever runs a task cannot know whether it stopped
					// already: the answer says who performs its operations.
					b, known := asBool(r)
					other, _ := asBool(valOr(q.st.User["started"]))

					switch {
					case R:
						q.ok(!raises && known && !b && slept == 0 && is(true, false, W, E), "a running task is not started again and carries on: %s, answers %s", now, show(r))
					case S:
						// Whoever stops it has not reported that yet.
						q.ok(!raises && known && slept > 0 && b != other && got[j.R] && (!b || !got[j.S]) && got[j.E] == E, "a task that is about to report that it stopped is started after that: %s, answers %s", now, show(r))
					default:
						q.ok(!raises && known && b && is(true, S, W, E), "starting marks the task running and nothing else: %s, answers %s", now, show(r))
					}
				case "Wait":
					if W {
						q.ok(raises, "a task already waiting must not wait for a second command: %s", now)
					} else {
						q.ok(!raises && is(R, S, true, E), "waiting marks the task waiting and nothing else: %s", now)
					}
				case "Notify":
					if !W {
						q.ok(raises, "a task that is not waiting must not be notified: %s", now)
					} else {
						q.ok(!raises && is(R, S, false, E) && (!R || woke > 0), "a notified task stops waiting and is woken if it runs: %s", now)

						if !raises {
							q.ok(j.value(q, t).Key() == v.Key(), "the value notified is the value the task reads")
						}
					}
				case "Value":
					q.ok(!raises && is(R, S, W, E), "reading the value changes no state: %s", now)
				case "Exit":
					q.ok(!raises && is(R, S, W, true), "exit is recorded and nothing else: %s", now)
				case "Exited":
					b, known := asBool(r)
					q.ok(!raises && known && b == E && is(R, S, W, E), "reports whether the task exited: %s %s", show(r), now)
				case "Stopped":
					q.ok(!S || startsOn == nil || told > 0, "whoever is to start the task again is told that it stopped: %s", now)
					q.ok(!raises && is(false, false, W, E), "a stopped task is neither running nor stopping, and still waits if it did: %s", now)
				case "Stop", "Interrupt":
					switch {
					case S || !R:
						q.ok(!raises && is(R, S, W, E), "stopping a task that is stopping or not running does nothing: %s", now)
					default:
						q.ok(!raises && got[j.S] && got[j.E] == E && (!W || woke > 0), "a stopping task is marked, and woken if it sleeps: %s", now)
					}
				case "Runnable":
					b, known := asBool(r)
					if raises || !known {
						q.ok(false, "Runnable answers: %s %s", show(r), now)

						return
					}

					switch {
					case !R:
						q.ok(!b && slept == 0 && is(R, S, W, E), "a task that is not running is not runnable: %v %s", b, now)
					case b:
						q.ok(is(true, false, false, E) && (slept > 0) == (W && !S), "a runnable task neither waits nor is stopping, and slept only if it waited: %s", now)
					default:
						q.ok(!got[j.R] && got[j.S] && got[j.E] == E, "a running task is refused only when it is stopping, and no longer runs: %s", now)
					}
				}
			})
		}
	}

	for _, W := range []bool{false, true} {
		j.explore("C12.state", fmt.Sprintf("Started after Interrupt, W%d", b2i(W)), func(q *seq) {
			t := j.task(q)
			j.set(q.st, t, map[string]bool{j.R: true, j.W: W})
			q.st.User["self"] = t
			q.call(j.meth("Interrupt"), t)
			b, known := asBool(q.call(j.meth("Started"), t))
			got := j.bools(q.st, t)
			q.ok(known && !b && got[j.R] && got[j.S] && got[j.W] == W, "an interrupted task still ends: R%d S%d, started %v", b2i(got[j.R]), b2i(got[j.S]), b)
		})
	}

	j.c.ob("C12.starts", "Started", startsOn != nil, 0, "a task started while it is about to report that it stopped waits for that")
	j.c.ob("C12.sleeps", "Runnable", sleeps != nil, 0, "a waiting task sleeps on a condition")
}

// checkRun evaluates the loop of a task over every way its steps can go.
func (j *jobs) checkRun() {
	ct := j.p.typ(relTask, "Op")
	if ct == nil {
		panic(budgetError{"type task.Op not found"})
	}

	in := j.in
	stopsName := "invoke internal/engine/task.monitor.Stopped"

	runnable, step, started := j.p.fname(unwrapM(j.p, j.meth("Runnable"))), j.p.fname(unwrapM(j.p, j.meth("Step"))), j.p.fname(unwrapM(j.p, j.meth("Started")))
	top := j.p.fname(unwrapM(j.p, j.meth("Op")))

	save := map[string]Hook{}
	hook := func(n string, h Hook) {
		save[n] = in.Hooks[n]
		in.Hooks[n] = h
	}

	defer func() {
		for n, h := range save {
			if h == nil {
				delete(in.Hooks, n)
			} else {
				in.Hooks[n] = h
			}
		}
	}()

	fork := func(c *CallCtx, ev string, vs ...Val) []Out {
		var outs []Out

		for _, v := range vs {
			st := c.St.clone()
			if v == nil {
				st.event(ev, "raises", c.From, c.Pos, nil, c.Args...)
				outs = append(outs, Out{St: st, Kind: Panic, Val: T(nil, "steppanic"), Why: ev + " raises", Pos: c.Pos})

				continue
			}

			st.event(ev, "", c.From, c.Pos, v, c.Args...)
			outs = append(outs, Out{St: st, Kind: Ret, Val: v})
		}

		return outs
	}

	hook(started, func(c *CallCtx) ([]Out, bool) { return fork(c, "started", cBool(true), cBool(false)), true })
	hook(runnable, func(c *CallCtx) ([]Out, bool) { return fork(c, "runnable", cBool(true), cBool(false)), true })
	hook(top, func(c *CallCtx) ([]Out, bool) {
		v := T(ct, "op!"+c.St.fresh())
		nonNil(c.St, v)

		return fork(c, "op", v), true
	})
	hook(step, func(c *CallCtx) ([]Out, bool) {
		v := T(ct, "op!"+c.St.fresh())
		nonNil(c.St, v)

		return fork(c, "step", v, Nil{}, nil), true
	})
	hook(stopsName, func(c *CallCtx) ([]Out, bool) { return fork(c, "stopped", Tuple{}), true })

	j.c.guard("C12.run", "(*task.T).Run", func() {
		st := j.st0.clone()
		t := P(&Obj{ID: "task", T: deref(j.taskT), Sym: true, Base: true}, "")
		in.Steps = 0
		n := 0

		for _, o := range in.Call(st, j.meth("Run"), []Val{t}, nil, 0, false) {
			if o.Kind == Trunc {
				continue
			}

			n++

			var seq []string

			stops, starts := 0, 0
			ok := true
			why := ""
			bad := func(s string) {
				ok = false
				why = s
			}
			refused := false // the task is running already
			asked := false   // Runnable said yes and no step since

			var cur Val

			for _, e := range o.St.events() {
				seq = append(seq, e.Kind+" "+show(valOr(e.Ret)))

				if stops > 0 {
					bad("does something after reporting that it stopped: " + e.Kind)
				}

				switch e.Kind {
				case "started":
					if b, _ := asBool(e.Ret); b {
						starts++
					} else {
						refused = true
					}
				case "stopped":
					stops++

					if len(e.Args) < 2 || e.Args[1].Key() != t.Key() {
						bad("reports another task")
					}
				case "op":
					cur = e.Ret
				case "runnable":
					asked, _ = asBool(e.Ret)
				case "step":
					if starts == 0 {
						bad("steps before it is marked running")
					}

					if !asked {
						bad("steps without being runnable")
					}

					if cur == nil || len(e.Args) < 2 || e.Args[1].Key() != cur.Key() {
						bad("performs an operation that is not the next one")
					}

					asked = false
					cur = e.Ret
				}
			}

			if refused {
				if len(seq) != 1 {
					bad("does something although the task is running already")
				}

				stops, starts, asked = 1, 1, false
			}

			if stops != 1 {
				bad(fmt.Sprintf("reports that it stopped %d times", stops))
			}

			if starts != 1 {
				bad(fmt.Sprintf("is marked running %d times", starts))
			}

			if o.Kind == Ret && len(seq) > 1 {
				// It may only end because it is not runnable or has no operation.
				last := ""

				for _, e := range o.St.events() {
					if e.Kind == "runnable" || e.Kind == "step" {
						last = e.Kind + show(valOr(e.Ret))
					}
				}

				if asked && cur != nil && !isNil(cur) {
					bad("ends although it is runnable and has an operation left (" + last + ")")
				}
			}

			j.c.ob("C12.run", "(*task.T).Run", ok, o.Pos, "%s [%s]", why, strings.Join(seq, ", "))
		}

		j.c.atLeast("C12.run", n, 4)
	})
}

func unwrapM(p *Program, f *ssa.Function) *ssa.Function {
	if f == nil || f.Synthetic == "" || len(f.Blocks) == 0 {
		return f
	}

	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Name() == f.Name() {
					return unwrapM(p, g)
				}
			}
		}
	}

	return f
}

func b2i(b bool) int {
	if b {
		return 1
	}

	return 0
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}

	var out [][]int

	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			x := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, x)
		}
	}

	return out
}

// session starts a foreground job with a main task.
func (j *jobs) session(q *seq) (job, main, told Val) {
	job = j.newJob(q, "New")
	main = j.task(q)
	told = j.cb("main")
	e := q.st.ev
	q.call(j.jm("Spawn"), job, Nil{}, main, told)
	q.ok(j.runs(q, main, e) == 1 && q.calls(told, e) == 0, "a spawned task is set running once, and nobody is told yet")
	q.call(j.meth("Started"), main)

	return
}

func (j *jobs) children(q *seq, job, p Val, n int) (ts []Val) {
	for i := 0; i < n; i++ {
		t := j.task(q)
		e := q.st.ev
		q.call(j.jm("Spawn"), job, p, t, Nil{})
		q.ok(j.runs(q, t, e) == 1, "a spawned task is set running once")
		q.call(j.meth("Started"), t)
		ts = append(ts, t)
	}

	return
}

func (j *jobs) dir() string {
	if j.in.Reverse {
		return " (reversed)"
	}

	return ""
}

// checkAwait completes tasks in every order under every kind of waiting.
func (j *jobs) checkAwait() {
	const n = 3

	orders := perms(n)

	for mask := 0; mask < 1<<n; mask++ {
		for before := 0; before <= n; before++ {
			for _, order := range orders {
				mask, before, order := mask, before, order

				if mask == 0 && before > 0 && before < n && order[0] != 0 {
					continue
				}

				on := fmt.Sprintf("await tasks %03b after %d of completions %v%s", mask, before, order, j.dir())

				j.explore("C12.await", on, func(q *seq) {
					job, main, told := j.session(q)
					ts := j.children(q, job, main, n)
					fn := j.cb("wait")
					start := q.st.ev

					left := map[int]bool{}

					var on []Val

					for i, t := range ts {
						if mask>>i&1 == 1 {
							on = append(on, t)
						}

						if mask>>i&1 == 1 || mask == 0 {
							left[i] = true
						}
					}

					for i := 0; i < before; i++ {
						j.complete(q, ts[order[i]])
						delete(left, order[i])
					}

					j.await(q, fn, main, on...)

					want := b2i(len(left) == 0)
					got := q.calls(fn, start)
					q.ok(got == want, "with %d awaited tasks unfinished the waiter was told %d times", len(left), got)

					for i := before; i < n; i++ {
						j.complete(q, ts[order[i]])
						delete(left, order[i])

						want := b2i(len(left) == 0)
						got := q.calls(fn, start)
						q.ok(got == want, "with %d awaited tasks unfinished the waiter was told %d times", len(left), got)
					}

					q.ok(q.calls(told, start) == 0, "completing other tasks does not complete the main task")
					j.complete(q, main)
					q.ok(q.calls(told, start) == 1 && q.calls(fn, start) == 1, "the main task's end is told once: %d", q.calls(told, start))
				})
			}
		}
	}

	// Two waiters with overlapping sets.
	for m1 := 1; m1 < 1<<n; m1++ {
		for m2 := m1; m2 < 1<<n; m2++ {
			for _, order := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}} {
				m := [2]int{m1, m2}
				order := order

				j.explore("C12.await", fmt.Sprintf("two waiters %03b %03b, completions %v%s", m1, m2, order, j.dir()), func(q *seq) {
					job, main, _ := j.session(q)
					ts := j.children(q, job, main, n)
					start := q.st.ev
					fns := [2]Val{j.cb("wait1"), j.cb("wait2")}
					left := m

					for k := range m {
						var on []Val

						for i, t := range ts {
							if m[k]>>i&1 == 1 {
								on = append(on, t)
							}
						}

						j.await(q, fns[k], main, on...)
					}

					for _, i := range order {
						j.complete(q, ts[i])

						for k := range left {
							left[k] &^= 1 << i
							got := q.calls(fns[k], start)
							q.ok(got == b2i(left[k] == 0), "waiter %d has unfinished tasks %03b and was told %d times", k+1, left[k], got)
						}
					}
				})
			}
		}
	}

	j.explore("C12.await", "the same task named twice"+j.dir(), func(q *seq) {
		job, main, _ := j.session(q)
		ts := j.children(q, job, main, 2)
		fn := j.cb("wait")
		start := q.st.ev
		j.await(q, fn, main, ts[0], ts[0])
		j.complete(q, ts[1])
		q.ok(q.calls(fn, start) == 0, "told before the task completed")
		j.complete(q, ts[0])
		q.ok(q.calls(fn, start) == 1, "told %d times", q.calls(fn, start))
	})

	j.explore("C12.await", "tasks of a task that is not the main one"+j.dir(), func(q *seq) {
		job, main, _ := j.session(q)
		ts := j.children(q, job, main, 2)
		kids := j.children(q, job, ts[0], 2)
		fn, none := j.cb("wait"), j.cb("none")
		start := q.st.ev
		j.await(q, none, ts[1])
		q.ok(q.calls(none, start) == 1, "a task without children waits for nothing: told %d times", q.calls(none, start))
		j.await(q, fn, ts[0])
		j.complete(q, kids[1])
		q.ok(q.calls(fn, start) == 0, "told before the last child completed")
		j.complete(q, ts[1])
		q.ok(q.calls(fn, start) == 0, "told when a task that is not its child completed")
		j.complete(q, kids[0])
		q.ok(q.calls(fn, start) == 1, "told %d times", q.calls(fn, start))
	})

	j.explore("C12.await", "a task spawned with a callback"+j.dir(), func(q *seq) {
		job, main, _ := j.session(q)
		t := j.task(q)
		fn := j.cb("spawn")
		start := q.st.ev
		q.call(j.jm("Spawn"), job, main, t, fn)
		q.ok(q.calls(fn, start) == 0 && j.runs(q, t, start) == 1, "spawned, not told")
		q.call(j.meth("Started"), t)
		q.call(j.jm("Stopped"), job, t)
		q.ok(q.calls(fn, start) == 0, "a task that stops with work left has not completed")
		q.call(j.meth("Started"), t)
		j.complete(q, t)
		q.ok(q.calls(fn, start) == 1, "told %d times", q.calls(fn, start))

		b := j.bools(q.st, t)
		q.ok(!b[j.R] && !b[j.S], "a task reported stopped is neither running nor stopping")
	})

	j.explore("C12.await", "a task that stops and goes on"+j.dir(), func(q *seq) {
		job, main, _ := j.session(q)
		ts := j.children(q, job, main, 2)
		fn := j.cb("wait")
		start := q.st.ev
		j.await(q, fn, main, ts...)
		q.call(j.jm("Stopped"), job, ts[0])
		j.complete(q, ts[1])
		q.ok(q.calls(fn, start) == 0, "a stopped task has not completed")
		q.call(j.meth("Started"), ts[0])
		j.complete(q, ts[0])
		q.ok(q.calls(fn, start) == 1, "told %d times", q.calls(fn, start))
	})

	j.explore("C12.await", "a job that is not in the foreground"+j.dir(), func(q *seq) {
		job := j.newJob(q, "Job")
		main := j.task(q)
		told := j.cb("main")
		start := q.st.ev
		q.call(j.jm("Spawn"), job, Nil{}, main, told)
		q.call(j.meth("Started"), main)
		kids := j.children(q, job, main, 1)
		fn := j.cb("wait")
		j.await(q, fn, main)
		q.ok(q.calls(fn, start) == 0, "told before the child completed")
		j.complete(q, kids[0])
		q.ok(q.calls(fn, start) == 1, "told %d times", q.calls(fn, start))
		q.ok(q.calls(told, start) == 0, "the main task has not completed")
		j.complete(q, main)
		q.ok(q.calls(told, start) == 1, "told %d times", q.calls(told, start))
	})
}

// checkStatus starts processes and reports their ends.
func (j *jobs) checkStatus() {
	ends := []struct {
		name string
		kind int
		n    int
		want int
	}{
		{"exits with 0", wExited, 0, 0}, {"exits with 1", wExited, 1, 1}, {"exits with 3", wExited, 3, 3}, {"exits with 255", wExited, 255, 255},
		{"is killed by signal 9", wSignaled, 9, 137}, {"is killed by signal 1", wSignaled, 1, 129}, {"dumps core on signal 11", wSignaled, 11 | 0x80, 139},
	}

	befores := []struct {
		name string
		evs  [][2]int
	}{
		{"", nil},
		{"stopped, continued, ", [][2]int{{wStopped, 19}, {wContinued, 0}}},
		{"stopped, ", [][2]int{{wStopped, 20}}},
		{"stopped, continued, stopped, ", [][2]int{{wStopped, 19}, {wContinued, 0}, {wStopped, 20}}},
	}

	for _, once := range []bool{true, false} {
		for _, b := range befores {
			for _, e := range ends {
				if len(b.evs)%2 == 1 && e.kind == wExited {
					continue // a stopped process cannot exit
				}

				once, b, e := once, b, e
				how := "each reported alone"

				if once {
					how = "all reported at once"
				}

				j.explore("C12.status", fmt.Sprintf("a process %s%s, %s%s", b.name, e.name, how, j.dir()), func(q *seq) {
					_, main, _ := j.session(q)
					start := q.st.ev
					err := j.execute(q, main, 100)
					q.ok(isNil(err) && j.waiting(q, main), "a task whose process was started waits: error %s, waiting %v", show(err), j.waiting(q, main))

					for _, x := range b.evs {
						q.child(report(100, x[0], x[1]))

						if !once {
							j.serve(q, "SIGCHLD")
							q.ok(j.waiting(q, main), "a stopped or continued process has not ended")
						}
					}

					q.child(report(100, e.kind, e.n))
					j.serve(q, "SIGCHLD")
					q.ok(!j.waiting(q, main), "the task is told that its process ended")

					v := j.value(q, main)
					q.ok(j.statusIs(v, e.want), "the status is %s (must be %d)", show(v), e.want)

					// Nothing is left over to tell a second time.
					q.child(report(100, e.kind, e.n))
					j.serve(q, "SIGCHLD", "SIGCHLD")
					q.ok(!j.waiting(q, main), "told once")

					// The number may be used again.
					q.call(j.jm("Stopped"), q.st.User["job"], main)
					q.call(j.meth("Started"), main)
					err = j.execute(q, main, 100)
					q.ok(isNil(err) && j.waiting(q, main), "the task can start another process")
					q.child(report(100, wExited, 7))
					j.serve(q, "SIGCHLD")
					v = j.value(q, main)
					q.ok(!j.waiting(q, main) && j.statusIs(v, 7), "and is told its status: %s", show(v))
					_ = start
				})
			}
		}
	}

	j.explore("C12.status", "a process that cannot be started"+j.dir(), func(q *seq) {
		_, main, _ := j.session(q)
		err := j.execute(q, main, 0)
		q.ok(!isNil(err) && err.Key() == q.st.User["start-error"].Key(), "the error is returned: %s", show(err))
		q.ok(!j.waiting(q, main), "the task does not wait for a process there is not")
		q.child(report(100, wExited, 0))
		j.serve(q, "SIGCHLD")
		q.ok(isNil(j.value(q, main)), "another process's end is not its status")
	})

	for _, order := range [][]int{{0, 1}, {1, 0}} {
		for _, once := range []bool{true, false} {
			order, once := order, once

			j.explore("C12.status", fmt.Sprintf("two processes of two tasks end in order %v, together %v%s", order, once, j.dir()), func(q *seq) {
				job, main, _ := j.session(q)
				ts := j.children(q, job, main, 2)
				pids := []int{100, 101}

				for i, t := range ts {
					q.ok(isNil(j.execute(q, t, pids[i])), "started")
				}

				q.child(report(555, wExited, 9))

				for k, i := range order {
					q.child(report(pids[i], wExited, 10+i))

					if !once {
						j.serve(q, "SIGCHLD")
						q.ok(!j.waiting(q, ts[i]) && (k == 1 || j.waiting(q, ts[1-i])), "only the task whose process ended is told")
					}
				}

				if once {
					j.serve(q, "SIGCHLD")
				}

				for i, t := range ts {
					v := j.value(q, t)
					q.ok(!j.waiting(q, t) && j.statusIs(v, 10+i), "each task gets its own process's status: %s for %d", show(v), 10+i)
				}
			})
		}
	}

	j.explore("C12.status", "an end reported before the next process starts"+j.dir(), func(q *seq) {
		job, main, _ := j.session(q)
		ts := j.children(q, job, main, 2)
		q.ok(isNil(j.execute(q, ts[0], 100)), "started")
		q.child(report(100, wExited, 4))
		q.ok(isNil(j.execute(q, ts[1], 100)), "started")
		j.serve(q, "SIGCHLD")
		v := j.value(q, ts[0])
		q.ok(!j.waiting(q, ts[0]) && j.statusIs(v, 4), "the first task is told its own status: %s", show(v))
		q.ok(j.waiting(q, ts[1]), "the second is still waiting")
	})

	j.explore("C12.served", "the service loop"+j.dir(), func(q *seq) {
		if q.st.User["job"] == nil {
			j.newJob(q, "New")
		}

		f := j.cb("request")
		var rq Val

		for _, g := range globalsOf(j.p, relJob) {
			if isFuncChan(deref(g.Type())) {
				rq = q.st.norm(q.st.loadAt(j.in.globalPtr(g).(*Ptr).Root, "", deref(g.Type())))
			}
		}

		if rq == nil {
			panic(budgetError{"no request channel"})
		}

		start := q.st.ev
		q.st.User["script"] = Tuple{Tuple{rq, f}, Tuple{rq, f}, Tuple{rq, f}}
		m := j.monitor.(*Fn)
		o := q.outB(m.F, m.B)
		q.ok(o.Kind == Stop && o.Why == "script over", "the service goes on: %s %s", o.Kind, o.Why)
		q.ok(q.calls(f, start) == 3, "each request is served once: %d of 3", q.calls(f, start))
	})
}

func globalsOf(p *Program, rel string) (gs []*ssa.Global) {
	q := p.pkg(rel)
	if q == nil {
		return nil
	}

	for _, m := range q.Members {
		if g, ok := m.(*ssa.Global); ok {
			gs = append(gs, g)
		}
	}

	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })

	return
}

func (p *Program) extType(path, name string) types.Type {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == path {
			if o := q.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}

	return nil
}
