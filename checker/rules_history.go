package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A hist is one point of a history of the job service: what the service and
// the tasks hold, and where the goroutines and the processes are.
type hist struct {
	st    *State
	tasks []htask
	procs []hproc
	cmds  int    // commands entered
	trace string // what happened
}

type htask struct {
	t, job Val
	todo   []string // operations left
	gos    []int    // goroutines: where each of them is
	told   Val      // for the main task of a command, its callback
	ready  bool     // told
	wait   Val      // the callback of what it waits for
}

type hproc struct {
	pid, task int
	state     int // hRunning, hStopped, hGone
}

const (
	gPending = iota // not yet started
	gLoop           // about to see whether it may go on
	gEnding         // about to report that it stopped
)

const (
	hRunning = iota
	hStopped
	hGone
)

func (h *hist) clone() *hist {
	n := *h
	n.st = h.st.clone()
	n.tasks = append([]htask{}, h.tasks...)

	for i := range n.tasks {
		n.tasks[i].gos = append([]int{}, n.tasks[i].gos...)
	}

	n.procs = append([]hproc{}, h.procs...)

	return &n
}

// histories evaluates the job service through every history of a few events.
func (k *crash) histories() {
	depth, most := 5, 20000
	if k.c.Tier == "thorough" {
		depth, most = 7, 200000
	}

	k.c.guard("C01.history", "job service", func() {
		j := newJobs(k.c)
		j.in.Hooks["(*sync.Cond).Wait"] = func(c *CallCtx) ([]Out, bool) {
			return []Out{{St: c.St, Kind: Stop, Why: "waits", Pos: c.Pos, Val: Nil{}}}, true
		}

		x := &histories{crash: k, j: j}

		for _, sc := range []struct {
			name string
			main []string
			kids [][]string
			next []string
		}{
			{"a command that is a program, then fg", []string{"exec"}, nil, []string{"fg"}},
			{"a command that is a program, then bg", []string{"exec"}, nil, []string{"bg"}},
			{"a pipeline, then fg", []string{"wait"}, [][]string{{"exec"}, {"exec"}}, []string{"fg"}},
			{"a pipeline of a program and a method, then bg", []string{"wait"}, [][]string{{"exec"}, {"work"}}, []string{"bg"}},
			{"a program after a background program", []string{"work", "exec"}, [][]string{{"exec"}}, []string{"work"}},
			{"a method that runs a missing program and another", []string{"fail", "exec"}, nil, []string{"exec"}},
			{"a method that runs programs, then nothing", []string{"exec", "exec"}, nil, []string{"exec"}},
		} {
			sc := sc

			j.explore("C01.history", sc.name, func(q *seq) {
				h := &hist{}
				x.next = sc.next

				job := j.newJob(q, "New")
				x.spawn(q, h, job, -1, sc.main)

				for _, kid := range sc.kids {
					x.spawn(q, h, job, 0, kid)
				}

				h.st, h.cmds = q.st, 1
				x.limit = x.n + most
				x.on = sc.name
				x.walk(h, depth-2)
				x.settle(h)
				x.walk(h, depth)
			})
		}

		// Before there is a command, and before it has begun.
		for _, began := range []bool{false, true} {
			for _, s := range []string{"SIGINT", "SIGTSTP", "SIGCHLD"} {
				j.explore("C01.history", s+" before a command", func(q *seq) {
					if began {
						j.newJob(q, "New")
					}

					q.st.User["wait4"] = Tuple{report(99, wExited, 0)}
					j.serve(q, s)
					q.ok(true, "")
				})
			}
		}

		for f := range j.in.Fns {
			k.eval[f] = true
		}

		k.c.count("histories", x.n)
		k.c.atLeast("histories", x.n, 200)
		k.c.enter(j.in)
	})
}

type histories struct {
	*crash
	j     *jobs
	on    string
	next  []string
	n     int
	limit int
}

func (x *histories) spawn(q *seq, h *hist, job Val, parent int, todo []string) {
	j := x.j
	q.st.User["job"] = job
	t := htask{t: j.task(q), job: job, todo: todo, gos: []int{gPending}}

	var p, fn Val = Nil{}, Nil{}

	if parent >= 0 {
		p = h.tasks[parent].t
	} else {
		t.told = j.cb(fmt.Sprint("command", h.cmds))
		fn = t.told
	}

	q.call(j.jm("Spawn"), job, p, t.t, fn)
	h.tasks = append(h.tasks, t)
}

// settle lets every task go on as far as it can.
func (x *histories) settle(h *hist) {
	for n := 0; n < 40; n++ {
		more := false

		for i := range h.tasks {
			if len(h.tasks[i].gos) == 0 {
				continue
			}

			x.goroutine(h, i, 0, h.tasks[i].gos[0], func(name string, do func(h *hist) []Out, then func(h *hist, v Val)) {
				more = x.step(h, hevent{name, do, then})
			})
		}

		if !more {
			return
		}
	}
}

// walk explores what can follow h.
func (x *histories) walk(h *hist, depth int) {
	if depth == 0 || x.n > x.limit {
		return
	}

	for _, e := range x.events(h) {
		n := h.clone()
		n.trace += ", " + e.name
		x.n++

		if !x.step(n, e) {
			continue
		}

		x.walk(n, depth-1)
	}
}

type hevent struct {
	name string
	do   func(h *hist) (outs []Out)
	then func(h *hist, v Val) // after it returned
}

func (x *histories) step(h *hist, e hevent) bool {
	start := h.st.ev
	outs := e.do(h)

	var live []Out

	for _, o := range outs {
		if o.Kind != Trunc {
			live = append(live, o)
		}
	}

	if len(live) == 0 {
		return false
	}

	// The order in which a service goes through a set is one choice of many.
	o := live[0]

	for _, l := range live {
		if l.Kind == Panic || l.Kind == Stop && l.Why != "script over" {
			o = l
		}
	}

	if o.Kind == Panic || o.Kind == Stop && o.Why != "script over" {
		x.report(h, o)

		return false
	}

	h.st = o.St
	h.st.User["script"] = Tuple{}
	e.then(h, h.st.norm(valOr(o.Val)))

	return x.after(h, start)
}

func (x *histories) report(h *hist, o Out) {
	x.c.ob("C01.history", x.on, false, o.Pos, "an error ends the shell: %s %s (after: %s)", o.Why, show(valOr(o.Val)), strings.TrimPrefix(h.trace, ", "))
}

// after accounts for what the service did: goroutines started and callbacks.
func (x *histories) after(h *hist, start *Ev) bool {
	var evs []*Ev
	for e := h.st.ev; e != nil && e != start; e = e.Prev {
		evs = append([]*Ev{e}, evs...)
	}

	for _, e := range evs {
		switch {
		case e.Kind == "go" && strings.HasSuffix(e.Name, ".Run") && len(e.Args) > 1:
			for i := range h.tasks {
				if h.tasks[i].t.Key() == e.Args[1].Key() {
					h.tasks[i].gos = append(h.tasks[i].gos, gPending)
				}
			}
		case e.Kind == "call" && e.Name == "dynamic":
			for i := range h.tasks {
				t := &h.tasks[i]

				if t.told != nil && e.Args[0].Key() == t.told.Key() {
					if t.ready {
						x.c.ob("C01.history", x.on, false, e.Pos, "the end of a command is told twice, and its channel closed twice (after: %s)", strings.TrimPrefix(h.trace, ", "))

						return false
					}

					t.ready = true
				}

				if t.wait != nil && e.Args[0].Key() == t.wait.Key() {
					t.wait = nil

					if !x.run(h, x.j.meth("Notify"), t.t, Nil{}) {
						return false
					}
				}
			}
		}
	}

	for _, t := range h.tasks {
		running := 0

		for _, g := range t.gos {
			if g != gPending {
				running++
			}
		}

		if running > 1 {
			x.c.ob("C01.history", x.on, false, token.NoPos, "a task is performed by two goroutines (after: %s)", strings.TrimPrefix(h.trace, ", "))

			return false
		}
	}

	x.c.ob("C01.history", x.on, true, token.NoPos, "")

	return true
}

// run evaluates a call that must not raise an error.
func (x *histories) run(h *hist, f *ssa.Function, args ...Val) bool {
	for _, o := range x.call(h.st, f, args...) {
		switch o.Kind {
		case Ret:
			h.st = o.St

			return true
		case Trunc:
		default:
			x.report(h, o)

			return false
		}
	}

	return false
}

func (x *histories) call(st *State, f *ssa.Function, args ...Val) []Out {
	x.j.in.Steps = 0

	return x.j.in.Call(st, f, args, nil, 0, false)
}

func (x *histories) serve(h *hist, sig string) []Out {
	h.st.User["script"] = Tuple{Tuple{x.j.signals, x.j.signal(sig)}}
	f := x.j.monitor.(*Fn)
	x.j.in.Steps = 0

	return x.j.in.Call(h.st, f.F, nil, f.B, 0, false)
}

func (x *histories) events(h *hist) (es []hevent) {
	j := x.j
	none := func(*hist, Val) {}
	add := func(name string, do func(h *hist) []Out, then func(h *hist, v Val)) {
		es = append(es, hevent{name, do, then})
	}

	for i := range h.tasks {
		i := i

		for g, where := range h.tasks[i].gos {
			g, where := g, where
			x.goroutine(h, i, g, where, add)
		}
	}

	for i, p := range h.procs {
		i, p := i, p
		change := func(name string, kind, arg, to int) {
			add(fmt.Sprintf("process %d %s", p.pid, name), func(h *hist) []Out {
				h.procs[i].state = to
				h.st.User["wait4"] = Tuple{report(p.pid, kind, arg)}

				return x.serve(h, "SIGCHLD")
			}, none)
		}

		switch p.state {
		case hRunning:
			change("ends", wExited, 0, hGone)
			change("stops", wStopped, 20, hStopped)
			change("continues, having stopped unseen", wContinued, 0, hRunning)
		case hStopped:
			change("stops again, having continued unseen", wStopped, 20, hStopped)
			change("continues", wContinued, 0, hRunning)
			change("is killed", wSignaled, 9, hGone)
		}
	}

	for _, s := range []string{"SIGINT", "SIGTSTP"} {
		s := s
		add(s, func(h *hist) []Out { return x.serve(h, s) }, none)
	}

	if told := h.tasks[x.last(h)]; h.cmds < 2 && told.ready {
		add("the next command", func(h *hist) []Out {
			return x.call(h.st, x.p.fn(relJob, "New"), cInt(0))
		}, func(h *hist, job Val) {
			// The rest is a straight line.
			q := &seq{sim: j.sim, st: h.st}
			h.cmds++
			x.spawn(q, h, job, -1, x.next)
			h.st = q.st
			h.tasks[len(h.tasks)-1].gos = nil // counted when the start is seen
		})
	}

	return es
}

// last is the main task of the last command.
func (x *histories) last(h *hist) int {
	n := 0

	for i, t := range h.tasks {
		if t.told != nil {
			n = i
		}
	}

	return n
}

func (x *histories) goroutine(h *hist, i, g, where int, add func(string, func(*hist) []Out, func(*hist, Val))) {
	j := x.j
	t := h.tasks[i]
	name := fmt.Sprintf("task %d ", i)

	drop := func(h *hist) {
		h.tasks[i].gos = append(append([]int{}, h.tasks[i].gos[:g]...), h.tasks[i].gos[g+1:]...)
	}

	ending := func(h *hist) {
		// An interrupted task gives up its work.
		for _, o := range x.call(h.st, j.meth("Interrupted"), t.t) {
			if o.Kind == Ret {
				h.st = o.St

				if b, ok := asBool(o.St.norm(valOr(o.Val))); ok && b {
					h.tasks[i].todo = nil
				}
			}
		}

		h.tasks[i].gos[g] = gEnding
	}

	switch where {
	case gPending:
		if b := j.bools(h.st, t.t); b[j.S] && !b[j.R] {
			// It waits until it has stopped.
			waits := true

			for _, o := range x.call(h.clone().st, j.meth("Started"), t.t) {
				waits = waits && o.Kind == Stop
			}

			if waits {
				return
			}
		}

		add(name+"is scheduled", func(h *hist) []Out { return x.call(h.st, j.meth("Started"), t.t) }, func(h *hist, v Val) {
			if b, ok := asBool(v); ok && !b {
				drop(h)

				return
			}

			h.tasks[i].gos[g] = gLoop
		})
	case gLoop:
		b := j.bools(h.st, t.t)
		if b[j.R] && b[j.W] && !b[j.S] {
			return // it waits
		}

		add(name+"goes on", func(h *hist) []Out { return x.call(h.st, j.meth("Runnable"), t.t) }, func(h *hist, v Val) {
			b, ok := asBool(v)
			if !ok {
				panic(budgetError{"whether a task is runnable is not known"})
			}

			todo := h.tasks[i].todo

			if !b || len(todo) == 0 {
				ending(h)

				return
			}

			h.tasks[i].todo = todo[1:]
			h.trace += " with " + todo[0]

			switch todo[0] {
			case "exec":
				pid := 100 + len(h.procs)
				q := &seq{sim: j.sim, st: h.st}
				q.st.User["job"] = t.job
				q.st.User["wait4"] = Tuple{}
				j.execute(q, t.t, pid)
				h.st = q.st
				h.procs = append(h.procs, hproc{pid: pid, task: i})
			case "fail":
				q := &seq{sim: j.sim, st: h.st}
				q.st.User["job"] = t.job
				j.execute(q, t.t, 0)
				h.st = q.st
			case "wait":
				h.tasks[i].wait = j.cb(fmt.Sprint("await", i))

				if !x.run(h, j.meth("Wait"), t.t) || !x.run(h, j.jm("Await"), t.job, h.tasks[i].wait, t.t, Nil{}) {
					h.trace += " failing"
				}
			case "fg":
				x.run(h, x.p.fn(relJob, "Fg"), Nil{}, cInt(0))
			case "bg":
				x.run(h, x.p.fn(relJob, "Bg"), Nil{}, cInt(0))
			}
		})
	case gEnding:
		add(name+"stops", func(h *hist) []Out {
			if len(h.tasks[i].todo) == 0 {
				q := &seq{sim: j.sim, st: h.st}
				j.finish(q, t.t)
				h.st = q.st
			}

			return x.call(h.st, j.jm("Stopped"), t.job, t.t)
		}, func(h *hist, v Val) { drop(h) })
	}
}
