package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// C27: calling a continuation means what returning the value would have
// meant, each time it is called.

func init() {
	rules["C27"] = rule{
		explain: "Abstract interpretation of the evaluator's SSA. A program with a method call in it is run to its end; the continuation that call bound to return is then called with a new value, several times, from other code, in the same task and in new ones. Each time every path must evaluate what, and give the value and leave the frame that, the same program gives when an opaque command stands where the method call stood: what had been saved may not have been changed by anything that ran since.",
		assume:  []string{"as C02", "programs are the listed contexts of a call, nested to depth three; continuations are called up to three times (quick) or five (thorough)"},
		run:     checkC27,
	}
}

// rctx is a program with a hole.
type rctx struct {
	name string
	mk   func(r *resumer, st *State, hole Val) (Val, *State)
}

type resumer struct {
	m    *Machine
	vals map[string]Val
}

func (r *resumer) list(st *State, vs ...Val) Val { return r.m.list(st, vs...) }
func (r *resumer) sym(st *State, s string) Val   { return r.m.sym(st, s) }

// closure makes a method with the given parameters and body.
func (r *resumer) closure(st *State, params []string, body ...Val) (Val, *State) {
	var ps []Val
	for _, p := range params {
		ps = append(ps, r.m.sym(st, p))
	}

	ev := st.ev
	v, st2 := methodValue(r.m, st, r.m.list(st, append([]Val{r.m.sym(st, "method"), r.m.list(st, ps...)}, body...)...))

	st2.ev = ev

	return v, st2
}

func resumeContexts() []rctx {
	simple := func(name string, f func(r *resumer, st *State, hole Val) Val) rctx {
		return rctx{name, func(r *resumer, st *State, hole Val) (Val, *State) { return f(r, st, hole), st }}
	}

	block := func(r *resumer, st *State, vs ...Val) Val {
		return r.list(st, append([]Val{r.sym(st, "block")}, vs...)...)
	}

	return []rctx{
		simple("a call alone", func(r *resumer, st *State, hole Val) Val { return hole }),
		simple("first in a block", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, hole, r.m.cmd("Z"))
		}),
		simple("within a block", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, r.m.cmd("A"), hole, r.m.cmd("Z"), r.m.cmd("W"))
		}),
		simple("last in a block", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, r.m.cmd("A"), hole)
		}),
		simple("a block in a block", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, block(r, st, r.m.cmd("A"), hole), r.m.cmd("Z"))
		}),
		simple("first operand", func(r *resumer, st *State, hole Val) Val {
			return r.list(st, r.sym(st, "add"), hole, r.m.cmd("B"))
		}),
		simple("operand between others", func(r *resumer, st *State, hole Val) Val {
			return r.list(st, r.sym(st, "add"), r.m.cmd("A"), hole, r.m.cmd("B"))
		}),
		simple("operand of an operand", func(r *resumer, st *State, hole Val) Val {
			return r.list(st, r.sym(st, "add"), r.m.cmd("A"), r.list(st, r.sym(st, "mul"), r.m.cmd("C"), hole), r.m.cmd("B"))
		}),
		simple("value of a definition", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, r.list(st, r.sym(st, "define"), r.sym(st, "x"), hole), r.m.cmd("Z"))
		}),
		simple("after a definition", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, r.list(st, r.sym(st, "define"), r.sym(st, "x"), r.m.cmd("A")), hole, r.m.cmd("Z"))
		}),
		simple("condition", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, r.list(st, r.sym(st, "if"), hole, r.m.cmd("T"), r.sym(st, "else"), r.m.cmd("F")), r.m.cmd("Z"))
		}),
		simple("in a branch", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, r.list(st, r.sym(st, "if"), r.m.cmd("A"), hole, r.m.cmd("T")), r.m.cmd("Z"))
		}),
		simple("in a loop", func(r *resumer, st *State, hole Val) Val {
			return block(r, st, r.list(st, r.sym(st, "while"), r.m.cmd("A"), hole), r.m.cmd("Z"))
		}),
		{"operand of a method", func(r *resumer, st *State, hole Val) (Val, *State) {
			v, st := r.closure(st, []string{"x", "y"}, r.m.cmd("S"))
			r.vals["M"] = v

			return block(r, st, r.list(st, r.m.cmd("M"), hole, r.m.cmd("B")), r.m.cmd("Z")), st
		}},
		{"in a method's body", func(r *resumer, st *State, hole Val) (Val, *State) {
			v, st := r.closure(st, []string{"x"}, r.m.cmd("C"), hole, r.m.cmd("S"))
			r.vals["M"] = v

			return block(r, st, r.list(st, r.m.cmd("M"), r.m.cmd("B")), r.m.cmd("Z")), st
		}},
		{"last in a method's body", func(r *resumer, st *State, hole Val) (Val, *State) {
			v, st := r.closure(st, []string{"x"}, r.m.cmd("C"), hole)
			r.vals["M"] = v

			return r.list(st, r.sym(st, "add"), r.m.cmd("A"), r.list(st, r.m.cmd("M"), r.m.cmd("B")), r.m.cmd("Z")), st
		}},
		{"in a block last in a method's body", func(r *resumer, st *State, hole Val) (Val, *State) {
			v, st := r.closure(st, []string{"x"}, block(r, st, r.m.cmd("C"), hole))
			r.vals["M"] = v

			return block(r, st, r.list(st, r.m.cmd("M"), r.m.cmd("B")), r.m.cmd("Z")), st
		}},
	}
}

// tag says how many times the hole has been given a value so far.
func resumed(st *State) int {
	n := 0

	for e := st.ev; e != nil; e = e.Prev {
		if e.Kind == "eval" && e.Name == "X" {
			n++
		}
	}

	return n
}

// outcome renders what happened since the hole got its latest value.
func (r *resumer) outcome(c *Check, res MRes, frame Val, round int) string {
	tag := fmt.Sprintf("@%d", round)
	var names []string // of what library calls gave since then

	norm := func(s string) string {
		for i := len(names) - 1; i >= 0; i-- { // longer numbers first
			s = strings.ReplaceAll(s, names[i], fmt.Sprintf("lib#%d", i))
		}

		return strings.ReplaceAll(s, tag, "@")
	}

	var evs []string

	n := 0

	for _, e := range res.St.events() {
		if e.Kind == "eval" && e.Name == "X" {
			n++

			if n == round {
				evs, names = nil, nil

				continue
			}
		}

		switch {
		case e.Kind == "eval":
			x := ""
			for _, name := range []string{"x", "y"} {
				if v, _ := boundIn(r.m, res.St, e.Args[0], name); v != nil {
					x += " " + name + "=" + show(res.St.norm(v))
				}
			}

			evs = append(evs, e.Name+x)
		case e.Kind == "lib":
			as := ""
			for _, a := range e.Args {
				as += " " + r.m.flat(res.St, a)
			}

			evs = append(evs, "("+e.Name+as+")")
			names = append(names, show(e.Ret))
		}
	}

	var cs []string

	for k, v := range conds(res) {
		if strings.Contains(k, tag) {
			cs = append(cs, fmt.Sprintf("%s=%v", k, v))
		}
	}

	sort.Strings(cs)

	s := fmt.Sprintf("if {%s} evaluates [%s]", strings.Join(cs, " "), strings.Join(evs, "; "))

	if res.Kind != Ret {
		return norm(s + " and ends with " + res.Kind)
	}

	s += " giving " + show(res.Result)

	if res.Bad != "" {
		s += ", but " + res.Bad
	}

	if res.Under == nil || res.Under.Key() != "OUTER" {
		s += " with " + show(res.Under) + " below it"
	}

	if !sameFrame(res, frame) {
		s += " in frame " + show(res.Frame)
	}

	return norm(s)
}

func checkC27(c *Check) {
	m := mustMachine(c.P)
	r := &resumer{m: m, vals: map[string]Val{}}

	rounds := 3
	if c.Tier == "thorough" {
		rounds = 5
	}

	var saved Val

	save := false

	m.ValueOf = func(st *State, name string) Val {
		if v, ok := r.vals[name]; ok {
			return v
		}

		n := resumed(st)
		if name == "X" {
			return T(m.cell, fmt.Sprintf("val:X@%d", n+1))
		}

		k := 1
		for e := st.ev; e != nil && !(e.Kind == "eval" && e.Name == "X"); e = e.Prev {
			if e.Kind == "eval" && e.Name == name {
				k++
			}
		}

		return T(m.cell, fmt.Sprintf("val:%s.%d@%d", name, k, n))
	}

	m.AfterEval = func(st *State, name string) {
		if name != "P" || !save {
			return
		}

		save = false

		v, why := boundIn(m, st, st.ev.Args[0], "return")
		if v == nil {
			panic(budgetError{"the continuation of a call is not found: " + why})
		}

		saved = v
	}

	type entry struct {
		name string
		mk   func(st *State) (Val, *State)
	}

	call := func(st *State) Val { return m.list(st, m.cmd("KK"), m.cmd("X")) }
	entries := []entry{
		{"alone", func(st *State) (Val, *State) { return call(st), st }},
		{"as an operand", func(st *State) (Val, *State) {
			return m.list(st, m.sym(st, "add"), m.cmd("D"), call(st), m.cmd("E")), st
		}},
		{"in a method's body", func(st *State) (Val, *State) {
			v, st := r.closure(st, nil, m.cmd("D"), call(st), m.cmd("E"))
			r.vals["N"] = v

			return m.list(st, m.sym(st, "block"), m.list(st, m.cmd("N")), m.cmd("E")), st
		}},
		{"in a block", func(st *State) (Val, *State) {
			return m.list(st, m.sym(st, "block"), m.cmd("D"), call(st), m.cmd("E")), st
		}},
	}

	m.In.MaxVisit = 3
	nc := 0

	for _, k := range resumeContexts() {
		k := k

		// What the program does when an opaque command stands in the hole.
		want := map[string]bool{}

		c.guard("resumes", k.name, func() {
			st := m.W.Init.clone()
			save = false

			code, st := k.mk(r, st, m.cmd("X"))
			st.ev = nil

			res, frame, err := m.Eval(st, code)
			if err != nil {
				panic(budgetError{err.Error()})
			}

			for _, x := range res {
				if x.Kind != Trunc && resumed(x.St) == 1 {
					want[r.outcome(c, x, frame, 1)] = true
				}
			}

			if len(want) == 0 {
				c.undecided("resumes", k.name, "no path of the program reaches its end")

				return
			}

			for ei := range entries {
				c.guard("resumes", k.name+", "+entries[ei].name, func() {
					st := m.W.Init.clone()

					h, st := r.closure(st, nil, m.cmd("P"), m.cmd("Q"))
					r.vals["H"] = h

					code, st := k.mk(r, st, m.list(st, m.cmd("H")))
					st.ev = nil
					saved, save = nil, true

					t, frame, err := m.Begin(st, code)
					if err != nil {
						panic(budgetError{err.Error()})
					}

					op, _, err := m.call1(st, m.meth("PushOp"), t, m.evalOp())
					if err != nil {
						panic(budgetError{err.Error()})
					}

					res := m.drive(t, mItem{st: st, op: op})

					if saved == nil {
						c.undecided("resumes", k.name, "the call's continuation was not seen")

						return
					}

					r.vals["KK"] = saved

					for round := 1; round <= rounds; round++ {
						// Whichever way the last round ended, it ended; go on from the
						// first path that returned.
						var from *MRes

						for i := range res {
							h := 0

							for e := res[i].St.ev; e != nil; e = e.Prev {
								if e.Kind == "eval" && e.Name == "H" {
									h++
								}
							}

							if res[i].Kind == Ret && res[i].Bad == "" && h == 1 {
								from = &res[i]

								break
							}
						}

						if from == nil {
							c.undecided("resumes", k.name, "no path of the program returns")

							return
						}

						e := entries[(ei+round-1)%len(entries)]
						code, st := e.mk(from.St)
						where := "the same task"

						if round == 2 || round == 4 {
							where = "another task"

							if t, _, err = m.Begin(st, code); err != nil {
								panic(budgetError{err.Error()})
							}
						} else {
							m.setCode(st, t, code)

							for _, v := range []string{"OUTER2", "REPLACED"} {
								if _, _, err := m.call1(st, m.meth("PushResult"), t, T(m.cell, v)); err != nil {
									panic(budgetError{err.Error()})
								}
							}
						}

						op, _, err := m.call1(st, m.meth("PushOp"), t, m.evalOp())
						if err != nil {
							panic(budgetError{err.Error()})
						}

						// Only the rounds' own evaluations count towards the bound.
						res = m.drive(t, mItem{st: st, op: op})
						got := map[string]bool{}

						for _, x := range res {
							if x.Kind == Trunc || resumed(x.St) != round {
								continue
							}

							again := 0

							for e := x.St.ev; e != nil; e = e.Prev {
								if e.Kind == "eval" && e.Name == "H" {
									again++
								}
							}

							if again > 1 {
								continue // a loop came to the call a second time
							}

							o := r.outcome(c, x, frame, round)
							got[o] = true
							nc++

							c.ob("resumes", k.name, want[o], x.Pos, "call %d of the continuation, %s in %s: %s; returning the value would have meant: %s", round, e.name, where, o, strings.Join(keysOf(want), " or "))
						}

						for w := range want {
							if !got[w] {
								c.fail("resumes", k.name, token.NoPos, "call %d of the continuation, %s in %s: no path %s", round, e.name, where, w)
							}
						}
					}
				})
			}
		})
	}

	c.count("contexts", len(resumeContexts()))
	c.count("calls_of_continuations", nc)
	c.atLeast("resumes", nc, 200)
	c.enter(m.In)
}

func keysOf(m map[string]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return
}

func (m *Machine) evalOp() Val {
	return &Iface{m.P.typ("internal/engine/task", "Action"), &Fn{F: m.evalCmd}}
}

// checkRaised follows an error raised by an operation to the handler in force
// and out of the method that handler belongs to.
func checkRaised(c *Check, rule string) {
	m := mustMachine(c.P)
	r := &resumer{m: m, vals: map[string]Val{}}

	const problem = "a problem, with (special) characters;\nand lines "

	lib := m.In.Any
	m.In.Any = func(cc *CallCtx) ([]Out, bool) {
		if cc.Fn != nil && cc.Fn.Name() == "sub" && fnPkg(cc.Fn) != nil && strings.HasSuffix(fnPkg(cc.Fn).Path(), "internal/engine/commands") {
			return []Out{{St: cc.St, Kind: Panic, Val: &Iface{types.Typ[types.String], cStr(problem)}, Why: "sub raises", Pos: cc.Pos}}, true
		}

		outs, ok := lib(cc)
		if !ok {
			return nil, false
		}

		var rs []Out // the other commands work

		for _, o := range outs {
			if o.Kind == Ret {
				rs = append(rs, o)
			}
		}

		if len(rs) == 0 {
			return outs, true
		}

		return rs, true
	}

	m.ValueOf = func(st *State, name string) Val { return r.vals[name] }

	raise := []struct {
		name, text string
		mk         func(st *State) Val
	}{
		{"an error in a command", problem, func(st *State) Val { return m.list(st, m.sym(st, "sub"), m.cmd("E")) }},
	}

	nc := 0

	for _, k := range resumeContexts() {
		for _, e := range raise {
			k, e := k, e

			// Which throw another method's body finds is the script's matter.
			if strings.Contains(k.name, "method's body") {
				continue
			}

			on := e.name + ", " + k.name

			c.guard(rule, on, func() {
				m.In.Steps = 0
				m.ViaStep = false
				m.AfterEval = nil
				r.vals = map[string]Val{}

				// What comes before the failing command.
				st := m.W.Init.clone()
				code, st := k.mk(r, st, m.cmd("X"))
				m.subRaise = map[string]bool{"X": true}

				res, _, err := m.Eval(st, code)

				m.subRaise = map[string]bool{}

				if err != nil {
					panic(budgetError{err.Error()})
				}

				want := map[string]bool{}

				for _, x := range res {
					if n := len(x.Evals); x.Kind == Panic && n > 0 && x.Evals[n-1] == "X" {
						want[strings.Join(x.Evals[:n-1], " ")] = true
					}
				}

				// The same with a command that fails, in a method with a handler.
				st = m.W.Init.clone()
				r.vals = map[string]Val{}

				hv, st := r.closure(st, []string{"x"}, m.cmd("G"), m.list(st, m.cmd("KK"), m.cmd("V")), m.cmd("N"))
				r.vals["H"] = hv

				body, st := k.mk(r, st, e.mk(st))
				ov, st := r.closure(st, nil,
					m.list(st, m.sym(st, "define"), m.sym(st, "throw"), m.cmd("H")),
					m.cmd("K"), body, m.cmd("N"))
				r.vals["O"] = ov
				st.ev = nil

				var given Val

				m.AfterEval = func(st *State, name string) {
					switch name {
					case "K":
						v, why := boundIn(m, st, st.ev.Args[0], "return")
						if v == nil {
							panic(budgetError{"the continuation of a call is not found: " + why})
						}

						r.vals["KK"] = v
					case "G":
						given, _ = boundIn(m, st, st.ev.Args[0], "x")
						if given == nil {
							given = Nil{}
						}

						txt := m.cellStr(st, given)
						st.event("given", txt, nil, token.NoPos, given)
					}
				}
				m.ViaStep = true

				res, frame, err := m.Eval(st, m.list(st, m.sym(st, "block"), m.list(st, m.cmd("O")), m.cmd("Y")))

				m.ViaStep = false

				if err != nil {
					panic(budgetError{err.Error()})
				}

				got := map[string]bool{}

				for _, x := range res {
					if x.Kind == Trunc {
						continue
					}

					var ev []string

					thrown := ""
					failed, isStr := false, false

					for _, e := range x.St.events() {
						switch {
						case e.Kind == "given":
							thrown = e.Name

							i, ok := x.St.norm(e.Ret).(*Iface)
							isStr = ok && strings.HasSuffix(tstr(i.T), "type/str.T")
						case e.Kind == "eval" && e.Name == "E":
							failed = true
						case e.Kind == "eval":
							ev = append(ev, e.Name)
						}
					}

					all := " " + strings.Join(ev, " ") + " "
					pre := strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(all, " O H K "), "G KK V Y "))

					if !failed {
						continue
					}

					nc++

					got[pre] = true
					c.ob(rule, on, want[pre] && strings.HasPrefix(all, " O H K ") && strings.HasSuffix(all, " G KK V Y "), x.Pos, "evaluates [%s]; it must be [O H K], what comes before the failing command, the handler's [G KK V] and then [Y]", strings.TrimSpace(all))

					if x.Kind != Ret {
						c.fail(rule, on, x.Pos, "ends with %s %s", x.Kind, x.Why)

						continue
					}

					c.ob(rule, on, x.Bad == "" && x.Under != nil && x.Under.Key() == "OUTER" && show(x.Result) == "val:Y.1" && sameFrame(x, frame), x.Pos, "leaves %s above %s in frame %s %s", show(x.Result), show(x.Under), show(x.Frame), x.Bad)

					if e.text != "" {
						c.ob(rule, on, isStr, x.Pos, "what was raised is a text, the handler is not given a string")
						c.ob(rule, on, thrown == show(cStr(e.text)), x.Pos, "what was raised is %s, the handler is given %s", show(cStr(e.text)), thrown)
					}
				}

				for w := range want {
					c.ob(rule, on, got[w], token.NoPos, "no path evaluates [%s] and then reaches the handler", w)
				}
			})
		}
	}

	c.atLeast(rule, nc, 40)
	c.enter(m.In)
}

// checkEvalScope: eval, reached through a scope, evaluates in that scope, and
// what follows goes on where it was.
func checkEvalScope(c *Check, rule string) {
	m := mustMachine(c.P)

	for _, form := range []string{"the caller's scope", "the scope it is in"} {
		form := form

		c.guard(rule, "eval in "+form, func() {
			st := m.W.Init.clone()
			r := &resumer{m: m, vals: map[string]Val{}}
			m.ValueOf = func(st *State, name string) Val { return r.vals[name] }

			call := m.list(st, m.sym(st, "eval"), m.cmd("A"))
			if form == "the caller's scope" {
				call = m.list(st, m.cmd("EE"), m.sym(st, "eval"), m.cmd("A"))
			}

			def := m.list(st, m.sym(st, "syntax"), m.null(st), m.sym(st, "e"), m.cmd("P"), call, m.cmd("Q"))

			h, st := methodValue(m, st, def)
			r.vals["H"], r.vals["A"] = h, m.cmd("X")

			m.AfterEval = func(st *State, name string) {
				if name != "P" {
					return
				}

				v, why := boundIn(m, st, st.ev.Args[0], "e")
				if v == nil {
					panic(budgetError{"the caller's scope is not found: " + why})
				}

				r.vals["EE"] = v
			}

			defer func() { m.ValueOf, m.AfterEval = nil, nil }()

			block := m.list(st, m.sym(st, "block"), m.cmd("C"), m.list(st, m.cmd("H")), m.cmd("D"))

			res, frame, err := m.Eval(st, block)
			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, x := range res {
				if x.Kind == Trunc {
					continue
				}

				n++

				var ev []string

				in := map[string]string{}

				for _, e := range x.St.events() {
					if e.Kind == "eval" {
						in[e.Name] = strings.Join(enclosing(m, x.St, e.Args[0]), " in ")

						if e.Name != "EE" {
							ev = append(ev, e.Name)
						}
					}
				}

				got := strings.Join(ev, " ")
				c.ob(rule, "eval in "+form, x.Kind == Ret && got == "C H P A X Q D", x.Pos, "%s evaluates [%s], must be [C H P A X Q D]", x.Kind, got)

				if x.Kind != Ret {
					continue
				}

				want := in["C"]
				if form != "the caller's scope" {
					want = in["P"]
				}

				c.ob(rule, "eval in "+form, in["X"] == want, x.Pos, "the code is evaluated in %s, must be in %s", in["X"], want)
				c.ob(rule, "eval in "+form, in["Q"] == in["P"] && in["D"] == in["C"] && sameFrame(x, frame), x.Pos, "afterwards the method goes on in %s (it began in %s) and its caller in %s (it was in %s)", in["Q"], in["P"], in["D"], in["C"])
			}

			c.atLeast(rule+" in "+form, n, 1)
		})
	}

	c.enter(m.In)
}
