package main

import (
	"fmt"
	"go/types"
	"strings"
)

func checkC26(c *Check) {
	j := newJobs(c)

	j.checkEnding()

	for _, rev := range []bool{false, true} {
		j.in.Reverse = rev
		j.checkSignals()
		j.checkResume()
		j.checkGroups()
	}

	c.enter(j.in)
}

// checkEnding evaluates a running task that is stopped or interrupted while
// it performs an operation, or just before one.
func (j *jobs) checkEnding() {
	in := j.in
	opT := j.p.typ(relTask, "Action")
	step := j.p.fname(unwrapM(j.p, j.meth("Step")))
	stopped := "invoke internal/engine/task.monitor.Stopped"

	for _, how := range []string{"Stop", "Interrupt", "Stop, then Interrupt", "Interrupt twice", "nothing"} {
		for at := 1; at <= 2; at++ {
			how, at := how, at

			hit := func(c *CallCtx, t Val) {
				for _, h := range map[string][]string{"Stop": {"Stop"}, "Interrupt": {"Interrupt"}, "Stop, then Interrupt": {"Stop", "Interrupt"}, "Interrupt twice": {"Interrupt", "Interrupt"}}[how] {
					outs := in.Call(c.St, j.meth(h), []Val{t}, nil, c.Depth+1, false)
					if len(outs) != 1 || outs[0].Kind != Ret {
						panic(budgetError{h + " does not simply return"})
					}

					c.St = outs[0].St
				}
			}

			// An operation pushes another, which is then the next.
			in.Hooks[step] = func(c *CallCtx) ([]Out, bool) {
				t := c.Args[0]
				n, _ := asInt(valOr(c.St.User["steps"]))
				n++
				c.St.User["steps"] = cInt(n)
				c.St.event("step", "", c.From, c.Pos, nil)

				if n > 3 {
					return ret(c.St, Nil{}), true
				}

				if int(n) == at {
					hit(c, t)
				}

				op := &Iface{opT, T(opT, "nonnil", T(opT, fmt.Sprint("operation", n)))}
				outs := in.Call(c.St, j.meth("PushOp"), []Val{t, op}, nil, c.Depth+1, false)

				for i := range outs {
					outs[i].Val = op
				}

				return outs, true
			}

			in.Hooks[stopped] = func(c *CallCtx) ([]Out, bool) {
				c.St.event("stopped", "", c.From, c.Pos, nil, c.Args...)

				return ret(c.St, Tuple{}), true
			}

			j.explore("C26.ending", fmt.Sprintf("%s during operation %d", how, at), func(q *seq) {
				t := j.task(q)
				run := j.meth("Run")
				e := q.st.ev
				q.storeJob(j, t)
				q.call(run, t)

				steps := 0

				for _, x := range q.since(e) {
					if x.Kind == "step" {
						steps++
					}
				}

				done, known := asBool(q.call(j.meth("Completed"), t))
				q.ok(known && (how == "nothing") == (steps == 4), "a stopped task performs no further operation: %d performed", steps)

				if how != "nothing" {
					q.ok(steps == at, "a stopped task performs no further operation: %d performed", steps)
					q.ok(done == strings.HasPrefix(how, "Interrupt"), "an interrupted task has no work left, a stopped one keeps it: none left %v", done)
				}
			})
		}
	}

	delete(in.Hooks, step)
	delete(in.Hooks, stopped)
}

// storeJob gives t an unknown monitor.
func (q *seq) storeJob(j *jobs, t Val) {
	mt := j.p.typ(relTask, "monitor")
	if mt == nil {
		panic(budgetError{"type task.monitor not found"})
	}

	v := T(mt, "monitor")
	nonNil(q.st, v)

	root, path, _ := addr(t)
	q.st.storeAt(root, path+"."+fieldOfType(deref(j.taskT), mt), v, mt)
}

// checkSignals delivers the terminal's signals.
func (j *jobs) checkSignals() {
	for _, sig := range []string{"SIGINT", "SIGTSTP"} {
		sig := sig

		j.explore("C26.signal", sig+" without a job"+j.dir(), func(q *seq) {
			e := q.st.ev
			j.serve(q, sig)

			for _, x := range q.since(e) {
				if x.Kind == "process" {
					q.ok(false, "%s with no job signals a process", sig)
				}
			}

			q.ok(true, "ignored")

			// A job that has not started anything.
			j.newJob(q, "New")
			j.serve(q, sig)
			q.ok(true, "ignored")
		})

		for _, withProc := range []bool{false, true} {
			withProc := withProc

			j.explore("C26.signal", fmt.Sprintf("%s to a job, with a process %v%s", sig, withProc, j.dir()), func(q *seq) {
				other := j.newJob(q, "Job")
				omain := j.task(q)
				q.call(j.jm("Spawn"), other, Nil{}, omain, j.cb("other"))
				q.call(j.meth("Started"), omain)
				okid := j.children(q, other, omain, 1)[0]
				q.ok(isNil(j.execute(q, okid, 55)), "started")

				job, main, _ := j.session(q)
				kids := j.children(q, job, main, 2)
				grand := j.children(q, job, kids[0], 1)
				all := append(append([]Val{main}, kids...), grand...)

				if withProc {
					q.ok(isNil(j.execute(q, grand[0], 100)), "started")
					q.ok(isNil(j.execute(q, kids[1], 101)), "started")
				}

				e := q.st.ev
				j.serve(q, sig)

				for i, t := range all {
					b := j.bools(q.st, t)
					q.ok(b[j.S], "task %d of the foreground job is told to stop", i)
				}

				for _, t := range []Val{omain, okid} {
					q.ok(!j.bools(q.st, t)[j.S], "a task of another job is left alone")
				}

				op := map[string]string{"SIGINT": "Interrupt", "SIGTSTP": "Stop"}[sig]

				if withProc {
					for _, pid := range []int{100, 101} {
						q.ok(q.sent(op, pid, e) == 1, "process %d of the job is signalled: %d times", pid, q.sent(op, pid, e))
					}
				}

				q.ok(q.sent(op, 55, e) == 0, "a process of another job is left alone")
			})
		}
	}
}

// checkResume stops a job and takes it up again.
func (j *jobs) checkResume() {
	printed := func(q *seq, e *Ev) (lines []string) {
		for _, x := range q.since(e) {
			if x.Kind == "call" && strings.HasPrefix(x.Name, "fmt.Fprint") {
				s, ok := j.in.format(q.st, strings.TrimPrefix(x.Name, "fmt."), x.Args[1:])
				if !ok {
					s = "?"
				}

				lines = append(lines, s)
			}
		}

		return
	}

	w := T(nil, "writer")

	suspend := func(q *seq, main Val, pids []int, live []Val) *Ev {
		// Every process stops; the last one stops the tasks.
		for i, p := range pids {
			q.child(report(p, wStopped, 20))
			j.serve(q, "SIGCHLD")

			stopping := j.bools(q.st, main)[j.S]
			q.ok(stopping == (i == len(pids)-1), "the job stops when the last of its running processes has: %d of %d, stopping %v", i+1, len(pids), stopping)
		}

		if len(pids) == 0 {
			j.serve(q, "SIGTSTP")
		}

		for _, t := range live {
			q.ok(j.bools(q.st, t)[j.S], "every task of a stopped job is told to stop")
		}

		e := q.st.ev

		for i := len(live) - 1; i >= 0; i-- {
			q.call(j.jm("Stopped"), q.st.User["job"], live[i])
		}

		return e
	}

	for _, how := range []string{"Fg", "Bg"} {
		for _, pids := range [][]int{{100}, {100, 101}, {}} {
			for _, number := range []int{0, 1} {
				for rounds := 1; rounds <= 2; rounds++ {
					how, pids, number, rounds := how, pids, number, rounds

					if how == "Bg" && rounds > 1 {
						continue
					}

					on := fmt.Sprintf("%s %d of a job stopped with %d processes, %d times%s", how, number, len(pids), rounds, j.dir())

					j.explore("C26.resume", on, func(q *seq) {
						job, main, told := j.session(q)
						q.call(j.jm("Append"), job, cStr("the line"))
						kids := j.children(q, job, main, 2)
						grand := j.children(q, job, kids[0], 1)
						live := append(append([]Val{main}, kids...), grand...)

						for i, p := range pids {
							q.ok(isNil(j.execute(q, kids[i], p)), "started")
						}

						wait := j.cb("wait")
						j.await(q, wait, main, kids...)

						begin := q.st.ev
						cur := told

						for round := 1; round <= rounds; round++ {
							start := q.st.ev
							e := suspend(q, main, pids, live)
							q.ok(q.calls(cur, start) == 1, "whoever waits for the foreground job is told once when it stops: %d", q.calls(cur, start))

							text := strings.Join(printed(q, e), "\n")
							q.ok(strings.Contains(text, "the line"), "the stopped job is shown with its command: %q", text)

							e = q.st.ev
							q.call(q.fn(relJob, "Jobs"), w)
							text = strings.Join(printed(q, e), "\n")
							q.ok(strings.Contains(text, "the line") && strings.Contains(text, "[1]"), "the stopped job is listed by number with its command: %q", text)

							// The next command line resumes it.
							job2 := j.newJob(q, "New")
							main2 := j.task(q)
							next := j.cb(fmt.Sprint("next", round))
							q.call(j.jm("Append"), job2, cStr("resume"))
							q.call(j.jm("Spawn"), job2, Nil{}, main2, next)
							q.call(j.meth("Started"), main2)

							// There is no other.
							none := q.call(q.fn(relJob, how), w, cInt(7))
							q.ok(isNil(none) || none.Key() == cBool(false).Key(), "a job that does not exist is not resumed: %s", show(none))

							e = q.st.ev
							v := q.call(q.fn(relJob, how), w, cInt(int64(number)))

							if how == "Fg" {
								b, _ := asBool(v)
								q.ok(b, "the job is resumed: %s", show(v))
							} else {
								q.ok(v.Key() == main.Key(), "the job's task is returned: %s", show(v))
							}

							q.ok(j.runs(q, main, e) == 1, "its main task is set running once: %d", j.runs(q, main, e))

							for _, p := range pids {
								q.ok(q.sent("Continue", p, e) == 1, "process %d is continued: %d times", p, q.sent("Continue", p, e))
							}

							if how == "Fg" {
								want := 7000
								if len(pids) > 0 {
									want = pids[0]
								}

								q.ok(q.sent("SetForegroundGroup", want, e) == 1, "the job's group gets the terminal")
							} else {
								q.ok(!anyProcess(q.since(e), "SetForegroundGroup"), "a background job does not get the terminal")
							}

							text = strings.Join(printed(q, e), "\n")
							q.ok(strings.Contains(text, "the line"), "its command is shown: %q", text)

							q.call(j.meth("Started"), main)
							e = q.st.ev

							for _, p := range pids {
								q.child(report(p, wContinued, 0))
							}

							j.serve(q, "SIGCHLD")

							if len(pids) > 0 {
								for _, t := range live[1:] {
									q.ok(j.runs(q, t, e) == 1, "each of the job's tasks is set running once: %d", j.runs(q, t, e))
									q.call(j.meth("Started"), t)
								}
							} else {
								// Nothing continues them.
								live = []Val{main}
							}

							e = q.st.ev
							q.call(q.fn(relJob, "Jobs"), w)
							q.ok(len(printed(q, e)) == 0, "a resumed job is no longer listed: %v", printed(q, e))

							v = q.call(q.fn(relJob, how), w, cInt(0))
							q.ok(isNil(v) || v.Key() == cBool(false).Key(), "a resumed job cannot be resumed again: %s", show(v))

							// The command that resumed it ends.
							e = q.st.ev
							j.complete(q, main2)

							if how == "Fg" {
								q.ok(q.calls(next, e) == 0, "the terminal is not given back while the resumed job runs")
							} else {
								q.ok(q.calls(next, e) == 1, "bg returns to the prompt: told %d times", q.calls(next, e))
							}

							q.st.User["job"] = job
							cur = next
						}

						// It ends.
						e := q.st.ev
						bgwait := j.cb("bgwait")

						if how == "Bg" {
							other := j.task(q)
							j.await(q, bgwait, other, main)
							q.ok(q.calls(bgwait, e) == 0, "the background job has not completed")
						}

						for i, p := range pids {
							q.child(report(p, wExited, 20+i))
						}

						j.serve(q, "SIGCHLD")

						for i := range pids {
							v := j.value(q, kids[i])
							q.ok(j.statusIs(v, 20+i), "the status of process %d reaches its task: %s", pids[i], show(v))
						}

						for _, t := range append(grand, kids...) {
							j.complete(q, t)
						}

						q.ok(q.calls(wait, begin) == 1, "a waiter in the job is told once its tasks completed: %d", q.calls(wait, begin))

						j.complete(q, main)

						if how == "Fg" {
							q.ok(q.calls(cur, e) == 1, "whoever waits for the foreground is told when the resumed job completes: %d", q.calls(cur, e))
						} else {
							q.ok(q.calls(bgwait, e) == 1, "whoever waits for the background job is told when it completes: %d", q.calls(bgwait, e))
						}

						q.ok(q.calls(told, begin) == 1, "and nobody is told twice: %d", q.calls(told, begin))
					})
				}
			}
		}
	}

	j.explore("C26.resume", "several stopped jobs"+j.dir(), func(q *seq) {
		var mains []Val

		for i := 1; i <= 3; i++ {
			job, main, _ := j.session(q)
			q.call(j.jm("Append"), job, cStr(fmt.Sprint("line", i)))
			j.serve(q, "SIGTSTP")

			e := q.st.ev
			q.call(j.jm("Stopped"), job, main)
			text := strings.Join(printed(q, e), "\n")
			q.ok(strings.Contains(text, fmt.Sprintf("[%d]", i)) && strings.Contains(text, fmt.Sprint("line", i)), "stopped job %d is shown as such: %q", i, text)

			for k := 1; k < i; k++ {
				q.ok(!strings.Contains(text, fmt.Sprint("line", k)), "only the job that stopped is shown: %q", text)
			}

			mains = append(mains, main)
		}

		e := q.st.ev
		q.call(q.fn(relJob, "Jobs"), w)
		ls := printed(q, e)
		q.ok(len(ls) == 3, "every stopped job is listed: %q", ls)

		for i := range ls {
			q.ok(strings.Contains(ls[i], fmt.Sprintf("[%d]", i+1)) && strings.Contains(ls[i], fmt.Sprint("line", i+1)), "in order: %q", ls[i])
		}

		q.call(j.jm("Spawn"), j.newJob(q, "New"), Nil{}, j.task(q), Nil{})

		for _, x := range []struct{ n, want int }{{2, 1}, {0, 2}, {0, 0}} {
			e := q.st.ev
			v := q.call(q.fn(relJob, "Bg"), w, cInt(int64(x.n)))
			q.ok(v.Key() == mains[x.want].Key() && j.runs(q, mains[x.want], e) == 1, "bg %d resumes job %d", x.n, x.want+1)
		}
	})

	j.explore("C26.resume", "a stopped process that is killed"+j.dir(), func(q *seq) {
		job, main, _ := j.session(q)
		kids := j.children(q, job, main, 2)
		q.ok(isNil(j.execute(q, kids[0], 100)), "started")
		q.ok(isNil(j.execute(q, kids[1], 101)), "started")
		q.child(report(100, wStopped, 20), report(100, wSignaled, 9), report(101, wStopped, 20))
		j.serve(q, "SIGCHLD")
		q.ok(j.bools(q.st, main)[j.S], "the job stops when its only living process has")
		q.ok(!j.waiting(q, kids[0]), "the killed process's task is told")

		for _, t := range []Val{kids[1], main} {
			q.call(j.jm("Stopped"), job, t)
		}

		q.call(j.jm("Spawn"), j.newJob(q, "New"), Nil{}, j.task(q), Nil{})

		e := q.st.ev
		q.call(q.fn(relJob, "Bg"), w, cInt(0))
		q.ok(q.sent("Continue", 101, e) == 1 && q.sent("Continue", 100, e) == 0, "only living processes are continued")
	})
}

func anyProcess(es []*Ev, op string) bool {
	for _, x := range es {
		if x.Kind == "process" && x.Name == op {
			return true
		}
	}

	return false
}

// checkGroups follows the process group given to each process of a job.
func (j *jobs) checkGroups() {
	last := func(q *seq, e *Ev) (fg, group string) {
		for _, x := range q.since(e) {
			if x.Kind == "process" && x.Name == "SysProcAttr" {
				fg, group = show(x.Args[0]), show(x.Args[1])
			}
		}

		return
	}

	for _, monitor := range []bool{true, false} {
		for _, ctor := range []string{"New", "Job"} {
			monitor, ctor := monitor, ctor

			j.explore("C26.group", fmt.Sprintf("processes of a job made by %s, job control %v%s", ctor, monitor, j.dir()), func(q *seq) {
				q.st.User["monitor"] = cBool(monitor)
				j.newJob(q, "New") // a foreground there always is
				job := j.newJob(q, ctor)
				main := j.task(q)
				q.call(j.jm("Spawn"), job, Nil{}, main, Nil{})
				q.call(j.meth("Started"), main)
				kids := j.children(q, job, main, 3)
				wantFg := show(cBool(monitor && ctor == "New"))

				check := func(t Val, pid int, group string) {
					e := q.st.ev
					q.ok(isNil(j.execute(q, t, pid)), "started")
					fg, g := last(q, e)
					q.ok(fg == wantFg, "the foreground job's processes, and only those, take the terminal: %s", fg)
					q.ok(g == group, "process %d is put in group %s (must be %s)", pid, g, group)
				}

				check(kids[0], 100, show(cInt(0)))
				check(kids[1], 101, show(cInt(100)))

				// The first ends; the group lives on.
				q.child(report(100, wExited, 0))
				j.serve(q, "SIGCHLD")
				check(kids[2], 102, show(cInt(100)))

				// All end, one of them while stopped.
				q.child(report(101, wExited, 0), report(102, wStopped, 20), report(102, wSignaled, 9))
				j.serve(q, "SIGCHLD")
				q.ok(!j.waiting(q, kids[1]) && !j.waiting(q, kids[2]), "told")

				q.call(j.jm("Stopped"), job, kids[0])
				q.call(j.meth("Started"), kids[0])
				check(kids[0], 103, show(cInt(0)))
			})
		}
	}

	j.explore("C26.group", "a job with a stopped process"+j.dir(), func(q *seq) {
		job, main, _ := j.session(q)
		kids := j.children(q, job, main, 3)
		q.ok(isNil(j.execute(q, kids[0], 100)), "started")
		q.ok(isNil(j.execute(q, kids[1], 101)), "started")
		q.child(report(101, wStopped, 20), report(100, wExited, 0))
		j.serve(q, "SIGCHLD")

		e := q.st.ev
		q.ok(isNil(j.execute(q, kids[2], 102)), "started")
		_, g := last(q, e)
		q.ok(g == show(cInt(100)), "a stopped process keeps the group: %s", g)
	})

	j.explore("C26.group", "a job that is given a group"+j.dir(), func(q *seq) {
		job := q.call(q.fn(relJob, "New"), cInt(77))
		q.st.User["job"] = job
		main := j.task(q)
		q.call(j.jm("Spawn"), job, Nil{}, main, Nil{})
		q.call(j.meth("Started"), main)

		for i := 0; i < 2; i++ {
			e := q.st.ev
			q.ok(isNil(j.execute(q, main, 100+i)), "started")
			_, g := last(q, e)
			q.ok(g == show(cInt(77)), "its processes join that group: %s", g)
			q.child(report(100+i, wExited, 0))
			j.serve(q, "SIGCHLD")
		}
	})
}

// fieldOfType names the only field of a struct with a type.
func fieldOfType(t, want types.Type) string {
	var names []string

	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), want) {
				names = append(names, s.Field(i).Name())
			}
		}
	}

	if len(names) != 1 {
		panic(budgetError{fmt.Sprintf("%d fields of type %s in %s, one expected", len(names), tstr(want), tstr(t))})
	}

	return names[0]
}
