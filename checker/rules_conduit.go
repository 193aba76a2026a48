package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C21"] = rule{
		explain: "The operations of pipes and channels are evaluated over the abstract domain by several tasks at once, over a model of the operating system's pipes, of locks and of Go's channels; every schedule up to a number of preemptions is explored. What is read, what is left waiting and what is raised is compared with the contract of a conduit, and each conduit method is checked to do what it is named for.",
		assume: []string{
			"os.File.Close makes pending and later operations on the file fail; one write call is not interleaved with another in the same process",
			"the text of a value is any text; reading it back as commands is C17 and C16",
		},
		run: checkC21,
	}
}

// conduits evaluates the operations of conduits.
type conduits struct {
	*sim
	c    *Check
	ps   *parSim
	k    *kit
	runs int
	sp   int            // preemptions
	less int            // how many fewer, for scenarios with a parser and more than two tasks
	vals map[string]Val // texts, whose string is s and the name
}

func checkC21(c *Check) {
	sp := 2
	if c.Tier == "thorough" {
		sp = 3
	}

	checkConduits(c, sp)
}

// checkConduits explores the schedules of conduits with up to sp preemptions.
func checkConduits(c *Check, sp int) {
	ps := newParSim(c)
	ps.k.in.Any = nil

	d := &conduits{sim: &sim{c: c, p: c.P, in: ps.k.in, st0: ps.k.st0}, c: c, ps: ps, k: ps.k, sp: sp}

	// The text of a value stands for it.
	text := func(cc *CallCtx, how string) ([]Out, bool) {
		v := cc.St.norm(cc.Args[0])
		if i, ok := v.(*Iface); ok {
			return nil, false || i == nil
		}

		t := asTerm(v)
		if t == nil || !strings.HasPrefix(t.Op, "arg:") {
			return nil, false
		}

		return ret(cc.St, cStr(how+strings.TrimPrefix(t.Op, "arg:"))), true
	}

	for _, n := range []string{"internal/common/interface/literal.String", "invoke internal/common/interface/literal.I.Literal"} {
		d.in.Hooks[n] = func(cc *CallCtx) ([]Out, bool) { return text(cc, "l") }
	}

	for _, n := range []string{"internal/common.String", "invoke fmt.Stringer.String", "invoke internal/common/interface/stringer.I.String"} {
		d.in.Hooks[n] = func(cc *CallCtx) ([]Out, bool) { return text(cc, "s") }
	}

	d.vals = map[string]Val{}
	for _, n := range []string{"v", "w", "x"} {
		outs := d.k.run(d.st0, c.P.fn("internal/common/type/str", "New"), cStr("s"+n))
		if len(outs) != 1 || outs[0].Kind != Ret {
			panic(budgetError{"str.New does not return a value"})
		}

		d.st0, d.vals[n] = outs[0].St, outs[0].Val
	}

	c.guard("pipe", "contract", func() { d.pipes() })
	c.guard("channel", "contract", func() { d.channels() })
	c.guard("method", "conduit methods", func() { d.methods() })
	c.atLeast("schedules", d.runs, 400)
	c.enter(d.in)
}

type conduitOp struct {
	d    *conduits
	co   *coro
	th   *cthread
	v    Val // the conduit, as a cell
	name string
}

// conduit finds the method of a conduit's type.
func (d *conduits) meth(v Val, n string) *ssa.Function {
	i, ok := v.(*Iface)
	if !ok {
		panic(budgetError{"not a conduit: " + show(v)})
	}

	f := d.p.SSA.LookupMethod(i.T, nil, n)
	if f == nil {
		panic(budgetError{"no method " + n})
	}

	return f
}

// do performs an operation of a conduit; raised says that it throws.
func (d *conduits) do(th *cthread, v Val, n string, args ...Val) (r Val, raised bool) {
	co := th.co
	o := th.call(d.meth(v, n), append([]Val{v.(*Iface).V}, args...)...)

	switch o.Kind {
	case Ret:
		th.note("%s", n)

		return co.st.norm(valOr(o.Val)), false
	case Panic:
		th.note("%s raises %s", n, o.Why)

		return Nil{}, true
	}

	co.fail(o.Pos, "%s: %s", n, o.Why)

	return Nil{}, false
}

// newPipe makes a pipe.
func (d *conduits) newPipe(th *cthread, ends ...Val) Val {
	f := d.p.fn("internal/common/type/pipe", "New")
	args := []Val{Nil{}, Nil{}}
	copy(args, ends)

	o := th.call(f, args...)
	if o.Kind != Ret {
		panic(budgetError{"pipe.New: " + o.Why})
	}

	return o.Val
}

func (d *conduits) val(n string) Val { return d.k.unk(d.st0, n) }

// scene is a scenario: setup runs first, then the tasks together, then judge.
func (d *conduits) scene(rule, on string, setup func(th *cthread) Val, judge func(co *coro, waiting []string), tasks ...func(th *cthread, v Val)) {
	at := time.Now()
	defer func() {
		if os.Getenv("OHCHECK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "scene", on, time.Since(at))
		}
	}()

	d.runs += d.schedules(d.st0, d.in, rule, on, d.sp-d.less, func(co *coro) {
		var v Val

		co.thread("setup", func(th *cthread) {
			v = setup(th)
		})
		co.run()

		if v == nil {
			co.end()

			if !co.failed {
				co.fail(0, "cannot be set up")
			}

			return
		}

		for i, t := range tasks {
			t := t
			co.thread(fmt.Sprintf("task %d", i+1), func(th *cthread) { t(th, v) })
		}

		co.run()

		w := co.end()
		if !co.failed {
			judge(co, w)
		}
	})
}

func (d *conduits) pipes() {
	const rule = "pipe"

	show := func(co *coro, v Val) string { return d.ps.show(co.st, v) }

	fresh := func(th *cthread) Val { return d.newPipe(th) }

	// Only the reader of a pipe that is still open may be left.
	quiet := func(co *coro, waiting []string) {
		open := false

		for _, f := range co.files {
			open = open || !f.wr && !f.closed
		}

		var w []string

		for _, x := range waiting {
			if !open || !strings.HasPrefix(x, "goroutine") {
				w = append(w, x)
			}
		}

		if len(w) > 0 {
			co.fail(0, "%s forever", strings.Join(w, "; "))
		}
	}

	// want lists what values written are when read.
	texts := func(op, read string, ns ...string) (ts []string) {
		for _, n := range ns {
			t := map[string]string{"Write": "l", "WriteLine": "s"}[op] + n
			if read == "Read" {
				t = "(" + t + ")"
			} else {
				t = "'" + t + "'"
			}

			ts = append(ts, t)
		}

		return ts
	}

	for _, w := range []string{"Write", "WriteLine"} {
		for _, r := range []string{"Read", "ReadLine"} {
			w, r := w, r

			d.less = 0
			if r == "Read" {
				d.less = 1
			}

			// One writer, one reader.
			for n := 0; n <= 2; n++ {
				n := n

				var got []string

				d.scene(rule, fmt.Sprintf("%s then %s %d values", w, r, n), func(th *cthread) Val {
					got = nil

					return fresh(th)
				}, func(co *coro, waiting []string) {
					quiet(co, waiting)

					want := append(texts(w, r, []string{"v", "w"}[:n]...), "()", "()")
					if fmt.Sprint(got) != fmt.Sprint(want) {
						co.fail(0, "%v is read, not %v", got, want)
					}
				}, func(th *cthread, v Val) {
					for _, x := range []string{"v", "w"}[:n] {
						if _, bad := d.do(th, v, w, d.val(x)); bad {
							th.co.fail(0, "writing raises")
						}
					}

					if _, bad := d.do(th, v, "WriterClose"); bad {
						th.co.fail(0, "closing raises")
					}
				}, func(th *cthread, v Val) {
					for i := 0; i < n+2; i++ {
						x, bad := d.do(th, v, r)
						if bad {
							th.co.fail(0, "reading raises")
						}

						got = append(got, show(th.co, x))
					}
				})
			}

			// Two writers.
			var got []string

			d.scene(rule, fmt.Sprintf("%s by two tasks, %s", w, r), func(th *cthread) Val {
				got = nil

				return fresh(th)
			}, func(co *coro, waiting []string) {
				quiet(co, waiting)

				want := texts(w, r, "v", "w")
				sort.Strings(got)

				if fmt.Sprint(got) != fmt.Sprint(want) {
					co.fail(0, "%v is read, not %v in some order", got, want)
				}
			}, func(th *cthread, v Val) {
				d.do(th, v, w, d.val("v"))
			}, func(th *cthread, v Val) {
				d.do(th, v, w, d.val("w"))
			}, func(th *cthread, v Val) {
				for i := 0; i < 2; i++ {
					x, _ := d.do(th, v, r)
					got = append(got, show(th.co, x))
				}
			})

			// Two readers.
			var gots []string

			d.scene(rule, fmt.Sprintf("%s, %s by two tasks", w, r), func(th *cthread) Val {
				gots = nil

				v := fresh(th)
				d.do(th, v, w, d.val("v"))
				d.do(th, v, w, d.val("w"))

				return v
			}, func(co *coro, waiting []string) {
				quiet(co, waiting)

				want := texts(w, r, "v", "w")
				sort.Strings(gots)

				if fmt.Sprint(gots) != fmt.Sprint(want) {
					co.fail(0, "%v is read, not %v in some order", gots, want)
				}
			}, func(th *cthread, v Val) {
				x, _ := d.do(th, v, r)
				gots = append(gots, show(th.co, x))
			}, func(th *cthread, v Val) {
				x, _ := d.do(th, v, r)
				gots = append(gots, show(th.co, x))
			})
		}

		d.less = 0

		// Writing where nothing reads, and after the end was closed.
		for _, end := range []string{"ReaderClose", "WriterClose", "Close"} {
			w, end := w, end

			raised := false

			d.scene(rule, w+" after "+end, fresh, func(co *coro, waiting []string) {
				quiet(co, waiting)

				if !raised {
					co.fail(0, "nothing is raised")
				}
			}, func(th *cthread, v Val) {
				if _, bad := d.do(th, v, end); bad {
					th.co.fail(0, "%s raises", end)
				}

				_, raised = d.do(th, v, w, d.val("v"))
			})
		}
	}

	closers := []string{"ReaderClose", "WriterClose", "Close"}

	for _, r := range []string{"Read", "ReadLine"} {
		r := r

		// What was written can be read after the writer closed its end; nothing
		// can after the reader did.
		for _, end := range closers {
			end := end

			var got string

			d.scene(rule, r+" after "+end, fresh, func(co *coro, waiting []string) {
				quiet(co, waiting)

				want := "()"
				if end == "WriterClose" {
					want = texts("Write", r, "v")[0]
				}

				if got != want {
					co.fail(0, "%s is read, not %s", got, want)
				}
			}, func(th *cthread, v Val) {
				d.do(th, v, "Write", d.val("v"))
				d.do(th, v, end)

				x, bad := d.do(th, v, r)
				if bad {
					th.co.fail(0, "%s raises", r)
				}

				got = show(th.co, x)
			})
		}

		// An operation that waits leaves the others alone.
		for _, end := range []string{"ReaderClose", "Close", "Write", "WriterClose"} {
			end := end

			done := false

			d.scene(rule, end+" while "+r+" waits", fresh, func(co *coro, waiting []string) {
				quiet(co, waiting)

				if !done {
					co.fail(0, "%s does not return", end)
				}
			}, func(th *cthread, v Val) {
				d.do(th, v, r)
			}, func(th *cthread, v Val) {
				done = false

				var args []Val
				if end == "Write" {
					args = append(args, d.val("v"))
				}

				if _, bad := d.do(th, v, end, args...); bad {
					th.co.fail(0, "%s raises", end)
				}

				done = true
			})
		}
	}

	// Ends are closed once, however often and by however many they are closed.
	for _, a := range closers {
		for _, b := range closers {
			a, b := a, b

			for _, used := range []bool{false, true} {
				used := used

				var v0 Val

				on := a + " and " + b + " by two tasks"
				if used {
					on += " once read"
				}

				d.scene(rule, on, func(th *cthread) Val {
					v0 = fresh(th)

					if used {
						d.do(th, v0, "Write", d.val("v"))
						d.do(th, v0, "Read")
					}

					return v0
				}, func(co *coro, waiting []string) {
					quiet(co, waiting)

					for _, f := range co.files {
						if strings.HasPrefix(f.name, "|") {
							should := f.wr && (a != "ReaderClose" || b != "ReaderClose") || !f.wr && (a != "WriterClose" || b != "WriterClose")
							if should != f.closed {
								co.fail(0, "the end %s is closed: %v", f.name, f.closed)
							}
						}
					}
				}, func(th *cthread, v Val) {
					if _, bad := d.do(th, v, a); bad {
						th.co.fail(0, "%s raises", a)
					}
				}, func(th *cthread, v Val) {
					if _, bad := d.do(th, v, b); bad {
						th.co.fail(0, "%s raises", b)
					}
				})
			}
		}
	}

	// What the text of the pipe is.
	for _, x := range []struct {
		text  string
		reads string
		want  []string
	}{
		{"a b\n", "Read Read", []string{"(a b)", "()"}},
		{"a b", "Read Read", []string{"(a b)", "()"}},
		{"a\n\n# b\nb\n", "Read Read Read", []string{"(a)", "(b)", "()"}},
		{"a & b & a\n", "Read Read Read Read", []string{"(spawn (a))", "(spawn (b))", "(a)", "()"}},
		{"a {\nb\n}\nb\n", "Read Read Read", []string{"(a (b))", "(b)", "()"}},
		{")\na\n", "Read Read Read", []string{"!", "(a)", "()"}},
		{"a )\na & )\nb\n", "Read Read Read Read", []string{"!", "!", "(b)", "()"}},
		{"a b\n\nc", "ReadLine ReadLine ReadLine ReadLine", []string{"'a b'", "''", "'c'", "()"}},
		{" a \n) 'b\n", "ReadLine ReadLine ReadLine", []string{"' a '", "') 'b'", "()"}},
		{"a\nb\nc\n", "ReadLine Read ReadLine Read", []string{"'a'", "(b)", "'c'", "()"}},
		{"", "Read ReadLine", []string{"()", "()"}},
	} {
		x := x

		var got []string

		d.scene(rule, fmt.Sprintf("text %q", x.text), func(th *cthread) Val {
			got = nil
			v := fresh(th)

			for _, f := range th.co.files {
				f.buf.data = x.text
			}

			d.do(th, v, "WriterClose")

			return v
		}, func(co *coro, waiting []string) {
			quiet(co, waiting)

			if fmt.Sprint(got) != fmt.Sprint(x.want) {
				co.fail(0, "%q is read, not %q", got, x.want)
			}
		}, func(th *cthread, v Val) {
			for _, r := range strings.Fields(x.reads) {
				y, bad := d.do(th, v, r)
				if bad {
					got = append(got, "!")
				} else {
					got = append(got, show(th.co, y))
				}
			}

			d.do(th, v, "ReaderClose")
		})
	}

	// Commands that take more than one line, or a part of one, read by two tasks.
	for _, x := range []struct {
		text string
		want []string
	}{
		{"a {\nb\n}\nb\n", []string{"(a (b))", "(b)"}},
		{"a & b\n", []string{"(b)", "(spawn (a))"}},
	} {
		x := x

		var got []string

		d.scene(rule, fmt.Sprintf("text %q, Read by two tasks", x.text), func(th *cthread) Val {
			got = nil
			v := fresh(th)

			for _, f := range th.co.files {
				f.buf.data = x.text
			}

			d.do(th, v, "WriterClose")

			return v
		}, func(co *coro, waiting []string) {
			quiet(co, waiting)
			sort.Strings(got)

			if fmt.Sprint(got) != fmt.Sprint(x.want) {
				co.fail(0, "%q is read, not %q in some order", got, x.want)
			}
		}, func(th *cthread, v Val) {
			y, _ := d.do(th, v, "Read")
			got = append(got, show(th.co, y))
		}, func(th *cthread, v Val) {
			y, _ := d.do(th, v, "Read")
			got = append(got, show(th.co, y))
		})
	}

	// An end closed while what was written is read.
	for _, r := range []string{"Read", "ReadLine"} {
		for _, end := range closers {
			r, end := r, end

			var got string

			d.scene(rule, end+" as "+r+" reads", func(th *cthread) Val {
				v := fresh(th)
				d.do(th, v, "Write", d.val("v"))
				d.do(th, v, "Write", d.val("w"))

				return v
			}, func(co *coro, waiting []string) {
				quiet(co, waiting)

				want := texts("Write", r, "v")[0]
				if got != want && (end == "WriterClose" || got != "()" && got != "raises") {
					co.fail(0, "%s is read, not %s", got, want)
				}
			}, func(th *cthread, v Val) {
				x, bad := d.do(th, v, r)
				got = show(th.co, x)

				if bad {
					got = "raises"
				}
			}, func(th *cthread, v Val) {
				if _, bad := d.do(th, v, end); bad {
					th.co.fail(0, "%s raises", end)
				}
			})
		}
	}

	// Files with one end, and those that are not the pipe's to close.
	for _, which := range []string{"r", "w"} {
		for _, named := range []bool{true, false} {
			which, named := which, named

			var raisedR, raisedW bool

			var got string

			on := "file open for reading"
			if which == "w" {
				on = "file open for writing"
			}

			if !named {
				on += ", without a name"
			}

			d.scene(rule, on, func(th *cthread) Val {
				f := d.p.fn("internal/common/type/pipe", "New")
				r, w := th.co.pipe(f.Signature.Params().At(0).Type())

				for _, x := range th.co.files {
					if !named {
						x.name = ""
					}
				}

				if which == "r" {
					return d.newPipe(th, r)
				}

				return d.newPipe(th, Nil{}, w)
			}, func(co *coro, waiting []string) {
				quiet(co, waiting)

				if raisedR || got != "()" && which == "w" || got != "(a)" && which == "r" {
					co.fail(0, "%s is read, raises %v", got, raisedR)
				}

				if raisedW != (which == "r") {
					co.fail(0, "writing raises %v", raisedW)
				}

				for _, f := range co.files {
					if want := named && f.wr == (which == "w"); f.of == nil && f.closed != want {
						co.fail(0, "the file is closed: %v", f.closed)
					}
				}
			}, func(th *cthread, v Val) {
				for _, f := range th.co.files {
					f.buf.data = "a\n"
				}

				var x Val

				x, raisedR = d.do(th, v, "Read")
				got = show(th.co, x)
				_, raisedW = d.do(th, v, "Write", d.val("v"))

				if _, bad := d.do(th, v, "Close"); bad {
					th.co.fail(0, "closing raises")
				}
			})
		}
	}
}

func (d *conduits) channels() {
	const rule = "channel"

	newChan := func(th *cthread, n int) Val {
		o := th.call(d.p.fn("internal/common/type/chn", "New"), cInt(int64(n)))
		if o.Kind != Ret {
			panic(budgetError{"chn.New: " + o.Why})
		}

		return o.Val
	}

	names := []string{"v", "w", "x"}

	same := func(co *coro, v Val, n string) bool {
		return co.st.norm(v).Key() == co.st.norm(d.vals[n]).Key()
	}

	which := func(co *coro, v Val) string {
		for _, n := range names {
			// The text is decoded when it is read as a line.
			if same(co, v, n) || strings.Trim(d.shown(co, v), "'<>") == "s"+n {
				return n
			}
		}

		return d.shown(co, v)
	}

	finished := func(co *coro, waiting []string) {
		if len(waiting) > 0 {
			co.fail(0, "%s forever", strings.Join(waiting, "; "))
		}
	}

	for _, r := range []string{"Read", "ReadLine"} {
		for _, w := range []string{"Write", "WriteLine"} {
			for n := 0; n <= 2; n++ {
				r, w, n := r, w, n
				on := fmt.Sprintf("room for %d, %s and %s", n, w, r)

				// In order, each once, and nothing after the last.
				for _, by := range []string{"WriterClose", "Close"} {
					by := by

					var got []string

					d.scene(rule, on+", "+by, func(th *cthread) Val {
						got = nil

						return newChan(th, n)
					}, func(co *coro, waiting []string) {
						finished(co, waiting)

						if strings.Join(got, " ") != "v w x () ()" {
							co.fail(0, "%v is read", got)
						}
					}, func(th *cthread, v Val) {
						for _, x := range names {
							if _, bad := d.do(th, v, w, d.vals[x]); bad {
								th.co.fail(0, "writing raises")
							}
						}

						if _, bad := d.do(th, v, by); bad {
							th.co.fail(0, "closing raises")
						}
					}, func(th *cthread, v Val) {
						for i := 0; i < 5; i++ {
							x, bad := d.do(th, v, r)
							if bad {
								th.co.fail(0, "reading raises")
							}

							got = append(got, which(th.co, x))
						}
					})
				}

				// As many writes as there is room for do not wait; the next does.
				d.scene(rule, on+", no reader", func(th *cthread) Val {
					return newChan(th, n)
				}, func(co *coro, waiting []string) {
					done := strings.Count(strings.Join(co.trace, ";")+";", w+";")
					if done != n || len(waiting) != 1 {
						co.fail(0, "%d writes end", done)
					}
				}, func(th *cthread, v Val) {
					for i := 0; i <= n; i++ {
						d.do(th, v, w, d.vals["v"])
					}
				})

				// Closing does not wait, with room left or without.
				for held := 0; held <= n; held++ {
					for _, by := range []string{"WriterClose", "Close", "ReaderClose"} {
						held, by := held, by

						d.scene(rule, fmt.Sprintf("%s, %s holding %d", on, by, held), func(th *cthread) Val {
							return newChan(th, n)
						}, func(co *coro, waiting []string) {
							finished(co, waiting)
						}, func(th *cthread, v Val) {
							for i := 0; i < held; i++ {
								d.do(th, v, w, d.vals["v"])
							}

							if _, bad := d.do(th, v, by); bad {
								th.co.fail(0, "closing raises")
							}
						})
					}
				}

				// Two writers and two readers.
				var gots []string

				d.scene(rule, on+", two of each", func(th *cthread) Val {
					gots = nil

					return newChan(th, n)
				}, func(co *coro, waiting []string) {
					finished(co, waiting)
					sort.Strings(gots)

					if strings.Join(gots, " ") != "v w" {
						co.fail(0, "%v is read", gots)
					}
				}, func(th *cthread, v Val) {
					d.do(th, v, w, d.vals["v"])
				}, func(th *cthread, v Val) {
					d.do(th, v, w, d.vals["w"])
				}, func(th *cthread, v Val) {
					x, _ := d.do(th, v, r)
					gots = append(gots, which(th.co, x))
				}, func(th *cthread, v Val) {
					x, _ := d.do(th, v, r)
					gots = append(gots, which(th.co, x))
				})
			}
		}

		// Closing wakes the one who waits.
		for _, by := range []string{"WriterClose", "Close"} {
			r, by := r, by

			var got string

			d.scene(rule, by+" while "+r+" waits", func(th *cthread) Val {
				got = "nothing"

				return newChan(th, 0)
			}, func(co *coro, waiting []string) {
				finished(co, waiting)

				if got != "()" {
					co.fail(0, "%s is read", got)
				}
			}, func(th *cthread, v Val) {
				x, _ := d.do(th, v, r)
				got = which(th.co, x)
			}, func(th *cthread, v Val) {
				d.do(th, v, by)
			})
		}
	}

	// Nothing can be written once it is closed; its reader cannot close it.
	for _, w := range []string{"Write", "WriteLine"} {
		for _, by := range []string{"WriterClose", "Close", "ReaderClose"} {
			w, by := w, by

			raised := false

			d.scene(rule, w+" after "+by, func(th *cthread) Val {
				return newChan(th, 1)
			}, func(co *coro, waiting []string) {
				finished(co, waiting)

				if raised != (by != "ReaderClose") {
					co.fail(0, "raises: %v", raised)
				}
			}, func(th *cthread, v Val) {
				if _, bad := d.do(th, v, by); bad {
					th.co.fail(0, "%s raises", by)
				}

				_, raised = d.do(th, v, w, d.vals["v"])
			})
		}
	}
}

func (d *conduits) shown(co *coro, v Val) string { return d.ps.show(co.st, v) }

func (d *conduits) methods() {
	d.c.conduitMethods(newKit(d.c))
}
