package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

var worldCache = map[string]*World{}

// world interprets package initialisation once per process.
func world(p *Program, rels ...string) *World {
	k := strings.Join(rels, ",")
	if w, ok := worldCache[k]; ok {
		return &World{P: w.P, Init: w.Init.freeze()}
	}

	w, err := initWorld(p, rels...)
	if err != nil {
		panic(budgetError{err.Error()})
	}

	worldCache[k] = w

	return w
}

func mustMachine(p *Program) *Machine {
	m, err := newMachine(world(p, "internal/engine/task"))
	if err != nil {
		panic(budgetError{err.Error()})
	}

	in := m.In
	in.MaxVisit = 3

	// Library commands are one opaque step here: a value or an exception.
	cell := m.cell
	in.Any = func(c *CallCtx) ([]Out, bool) {
		if c.Fn == nil {
			return nil, false
		}

		k := fnPkg(c.Fn)
		if k != nil && k.Path() == p.Mod+"/internal/engine/commands" && c.Fn.Signature.Results().Len() == 1 && types.Identical(c.Fn.Signature.Results().At(0).Type(), cell) {
			v := T(cell, "libcall:"+p.fname(c.Fn)+"!"+c.St.fresh())
			nonNil(c.St, v)
			c.St.event("lib", p.fname(c.Fn), c.From, c.Pos, v, c.Args...)

			st2 := c.St.clone()

			return []Out{{St: c.St, Kind: Ret, Val: v}, {St: st2, Kind: Panic, Val: T(nil, "libpanic"), Why: "library command raises"}}, true
		}

		return nil, false
	}

	// Standard variables every session has.
	for _, n := range []string{"PWD", "OLDPWD", "HOME", "PATH"} {
		o := &Obj{ID: "var:" + n, T: p.typ("internal/common/type/sym", "T"), Base: true, Sym: true}
		m.Vars[n] = &Iface{types.NewPointer(o.T), P(o, "")}
	}

	for _, n := range []string{"stdin", "stdout", "stderr"} {
		o := &Obj{ID: "conduit:" + n, T: p.typ("internal/common/type/pipe", "T"), Base: true, Sym: true}
		m.Vars[n] = &Iface{types.NewPointer(o.T), P(o, "")}
	}

	for _, n := range []string{"R", "W"} {
		n := n
		in.Hooks["internal/common/type/pipe."+n] = func(c *CallCtx) ([]Out, bool) {
			return ret(c.St, c.pureRes("pipe."+n)), true
		}
	}

	// What is exported is C07's subject; here the environment is empty.
	in.Hooks["invoke internal/common/interface/scope.I.Enclosing"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, Nil{}), true
	}

	lib := in.Any
	in.Any = func(c *CallCtx) ([]Out, bool) {
		if c.Fn != nil {
			if k := fnPkg(c.Fn); k != nil && k.Path() == p.Mod+"/internal/common/struct/hash" && c.Res != nil && c.Res.String() == "map[string]string" {
				id := c.St.fresh()
				c.St.maps[id] = &MapObj{}

				return ret(c.St, &MapV{id}), true
			}
		}

		return lib(c)
	}

	// The executable cache is another component (C11).
	in.Hooks["internal/system/cache.Check"] = func(c *CallCtx) ([]Out, bool) {
		c.St.event("cache", "Check", c.From, c.Pos, nil, c.Args...)

		return ret(c.St, Tuple{}), true
	}

	// A job either fails to start a command or runs it and later notifies the
	// task; waiting runs the completion callback (the protocol is C12's).
	status := T(m.cell, "STATUS")
	in.Hooks["invoke internal/engine/task.monitor.Execute"] = func(c *CallCtx) ([]Out, bool) {
		st2 := c.St.clone()
		c.St.event("execute", "Execute", c.From, c.Pos, nil, c.Args...)
		nonNil(c.St, status)

		for _, n := range []string{"Wait", "Notify"} {
			args := []Val{c.Args[1]}
			if n == "Notify" {
				args = append(args, status)
			}

			if _, _, err := m.call1(c.St, m.meth(n), args...); err != nil {
				panic(budgetError{err.Error()})
			}
		}

		e := T(c.Res, "execute-error")
		nonNil(st2, e)
		st2.event("execute", "Refused", c.From, c.Pos, e, c.Args...)

		return []Out{{St: c.St, Kind: Ret, Val: Nil{}}, {St: st2, Kind: Ret, Val: e}}, true
	}
	in.Hooks["invoke internal/engine/task.monitor.Await"] = func(c *CallCtx) ([]Out, bool) {
		c.St.event("await", "Await", c.From, c.Pos, nil, c.Args...)

		fn, ok := c.Args[1].(*Fn)
		if !ok {
			return nil, false
		}

		return in.Call(c.St, fn.F, nil, fn.B, c.Depth+1, false), true
	}

	return m
}

// conds lists the truth value the path assigned to each tested value.
func conds(r MRes) map[string]bool {
	out := map[string]bool{}

	for k, v := range r.St.rep {
		if !strings.HasPrefix(k, "truth(") {
			continue
		}

		if b, ok := asBool(v); ok {
			out[strings.TrimSuffix(strings.TrimPrefix(k, "truth("), ")")] = b
		}
	}

	return out
}

func condStr(c map[string]bool) string {
	var ks []string
	for k, v := range c {
		ks = append(ks, fmt.Sprintf("%s=%v", k, v))
	}

	sort.Strings(ks)

	return strings.Join(ks, " ")
}

type expect struct {
	conds  string // as condStr
	evals  string // space separated
	result string // "" = not compared
}

// shape is one form of an oh command together with its reference meaning.
type shape struct {
	name string
	mk   func(m *Machine, st *State) Val
	want []expect
	// anyPanic: exceptions are acceptable outcomes for this form.
	anyPanic bool
}

// discipline checks the clauses every finished evaluation must satisfy.
func discipline(c *Check, rule, on string, m *Machine, r MRes, frame Val) bool {
	ok := true

	if r.Bad != "" {
		c.fail(rule+".stack", on, r.Pos, "after [%s]: %s", strings.Join(r.Evals, " "), r.Bad)

		ok = false
	}

	if r.Bad == "" && (r.Under == nil || r.Under.Key() != "OUTER") {
		c.fail(rule+".one-value", on, r.Pos, "evaluation must leave exactly one value above the caller's; below the result is %s", show(r.Under))

		ok = false
	}

	if r.Result != nil && isNil(r.Result) {
		c.fail(rule+".one-value", on, r.Pos, "evaluation leaves a nil value, which is not a shell value")

		ok = false
	}

	return ok
}

func sameFrame(r MRes, frame Val) bool {
	return r.Frame != nil && r.Frame.Key() == frame.Key()
}

func runShape(c *Check, m *Machine, s shape, frameRule, valueRule, refRule string) []MRes {
	var out []MRes

	c.guard(refRule, s.name, func() {
		st := m.W.Init.clone()
		code := s.mk(m, st)
		m.subVal["K"], m.subVal["V"] = m.sym(st, "kk"), m.sym(st, "v")

		defer delete(m.subVal, "K")
		defer delete(m.subVal, "V")

		res, frame, err := m.Eval(st, code)

		if err != nil {
			panic(budgetError{err.Error()})
		}

		out = res
		got := map[string]bool{}
		n := 0

		for _, r := range res {
			switch r.Kind {
			case Trunc:
				continue
			case Panic:
				if !s.anyPanic {
					c.fail(refRule, s.name, r.Pos, "raises (%s) after evaluating [%s]", r.Why, strings.Join(r.Evals, " "))
				}

				continue
			case Stop:
				c.fail(refRule, s.name, r.Pos, "evaluation ends the task or process: %s %s", r.Why, r.Bad)

				continue
			}

			n++

			if valueRule != "" {
				if discipline(c, valueRule, s.name, m, r, frame) {
					c.pass(valueRule, s.name, "[%s] leaves one value on the caller's stack", strings.Join(r.Evals, " "))
				}
			}

			if frameRule != "" {
				c.ob(frameRule, s.name, sameFrame(r, frame), r.Pos, "after [%s] %s the caller's frame is %s (must be the one it started in)", strings.Join(r.Evals, " "), condStr(conds(r)), show(r.Frame))
			}

			if s.want != nil {
				k := condStr(conds(r)) + " | " + strings.Join(r.Evals, " ")
				matched := false

				for _, w := range s.want {
					if w.conds+" | "+w.evals == k && (w.result == "" || r.Result != nil && (show(r.Result) == w.result || w.result == "()" && show(r.Result) == show(m.null(r.St)) || w.result == "task" && isTask(r.Result))) {
						matched = true
						got[k] = true
					}
				}

				c.ob(refRule, s.name, matched, r.Pos, "path {%s} evaluates [%s] giving %s", condStr(conds(r)), strings.Join(r.Evals, " "), show(r.Result))
			}
		}

		for _, w := range s.want {
			k := w.conds + " | " + w.evals
			if !got[k] {
				c.fail(refRule, s.name, token.NoPos, "no path evaluates [%s] when {%s} giving %s", w.evals, w.conds, w.result)
			}
		}

		if n == 0 && !s.anyPanic {
			c.undecided(refRule, s.name, "no path returns")
		}
	})

	return out
}

func isTask(v Val) bool {
	i, ok := v.(*Iface)
	if !ok {
		return false
	}

	n := namedOf(deref(i.T))

	return n != nil && n.Obj().Name() == "T" && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/engine/task")
}

func L(names ...string) func(m *Machine, st *State) Val {
	return func(m *Machine, st *State) Val {
		var vs []Val

		for _, n := range names {
			vs = append(vs, item(m, st, n))
		}

		return m.list(st, vs...)
	}
}

// item parses the little notation used for shapes: 'x = symbol x, P = opaque
// sub-command, @a = atom of unknown type, "s = string.
func item(m *Machine, st *State, n string) Val {
	switch n[0] {
	case '\'':
		return m.sym(st, n[1:])
	case '@':
		return m.atom(st, n[1:])
	case '"':
		return m.str(st, n[1:])
	}

	return m.cmd(n)
}

func coreShapes() []shape {
	return []shape{
		{"(block)", L("'block"), []expect{{"", "", "()"}}, false},
		{"(block A)", L("'block", "A"), []expect{{"", "A", "val:A.1"}}, false},
		{"(block A B C)", L("'block", "A", "B", "C"), []expect{{"", "A B C", "val:C.1"}}, false},
		{"(if C A B)", L("'if", "C", "A", "B"), []expect{{"val:C.1=true", "C A B", "val:B.1"}, {"val:C.1=false", "C", ""}}, false},
		{"(if C A B else D E)", L("'if", "C", "A", "B", "'else", "D", "E"), []expect{{"val:C.1=true", "C A B", "val:B.1"}, {"val:C.1=false", "C D E", "val:E.1"}}, false},
		{"(if C else D)", L("'if", "C", "'else", "D"), []expect{{"val:C.1=true", "C", ""}, {"val:C.1=false", "C D", "val:D.1"}}, false},
		{"(if C A else if D B else E)", L("'if", "C", "A", "'else", "'if", "D", "B", "'else", "E"), []expect{
			{"val:C.1=true", "C A", "val:A.1"},
			{"val:C.1=false val:D.1=true", "C D B", "val:B.1"},
			{"val:C.1=false val:D.1=false", "C D E", "val:E.1"},
		}, false},
		{"(if atom A else B)", L("'if", "@x", "A", "'else", "B"), []expect{{"atom:x=true", "A", "val:A.1"}, {"atom:x=false", "B", "val:B.1"}}, false},
		{"(define k A)", L("'define", "'k", "A"), []expect{{"", "A", "val:A.1"}}, false},
		{"(define k: method () A) value from sublist", func(m *Machine, st *State) Val {
			return m.list(st, m.sym(st, "define"), m.sym(st, "k:"), m.sym(st, "block"), m.cmd("A"))
		}, []expect{{"", "A", "val:A.1"}}, false},
		{"(define K A)", L("'define", "K", "A"), []expect{{"", "K A", "val:A.1"}}, true},
		{"(define k atom)", L("'define", "'k", "@x"), []expect{{"", "", "atom:x"}}, false},
		{"(export k A)", L("'export", "'k", "A"), []expect{{"", "A", "val:A.1"}}, false},
		{"(export K A)", L("'export", "K", "A"), []expect{{"", "K A", "val:A.1"}}, true},
		{"(set v A)", L("'set", "'v", "A"), []expect{{"", "A", "val:A.1"}}, false},
		{"(set V A)", L("'set", "V", "A"), []expect{{"", "V A", "val:A.1"}}, true},
		{"(spawn A B)", L("'spawn", "A", "B"), []expect{{"", "", "task"}}, false},
		{"()", func(m *Machine, st *State) Val { return m.null(st) }, []expect{{"", "", "()"}}, false},
	}
}

func whileShape(c *Check, m *Machine, frameRule, valueRule, refRule string) {
	s := shape{"(while C A B)", L("'while", "C", "A", "B"), nil, false}

	for _, r := range runShape(c, m, s, frameRule, valueRule, "") {
		if refRule == "" {
			break
		}

		if r.Kind != Ret && r.Kind != Trunc {
			continue
		}

		// Reference: C (A B C)* and the body runs iff the test before it held.
		ok, why := true, ""
		cs := conds(r)
		ev := r.Evals
		iter := 0

		for i := 0; i < len(ev); {
			iter++

			if ev[i] != "C" {
				ok, why = false, "the test is not evaluated before the body"

				break
			}

			i++
			t, known := cs[fmt.Sprintf("val:C.%d", iter)]

			if i >= len(ev) {
				if r.Kind == Ret && (!known || t) {
					ok, why = false, "the loop ends although the test held"
				}

				break
			}

			if !known || !t {
				ok, why = false, "the body runs although the test did not hold"

				break
			}

			for _, b := range []string{"A", "B"} {
				if i < len(ev) {
					if ev[i] != b {
						ok, why = false, "the body is not evaluated in order"
					}

					i++
				} else if r.Kind == Ret {
					ok, why = false, "the loop ends inside the body"
				}
			}

			if !ok {
				break
			}

			if i >= len(ev) && r.Kind == Ret {
				ok, why = false, "the loop ends without testing again"
			}
		}

		c.ob(refRule, s.name, ok, r.Pos, "trace [%s] {%s} %s", strings.Join(ev, " "), condStr(cs), why)
	}
}

// methodValue evaluates (method ...) or (syntax ...) and returns the closure.
func methodValue(m *Machine, st *State, code Val) (Val, *State) {
	res, _, err := m.Eval(st, code)
	if err != nil {
		panic(budgetError{err.Error()})
	}

	for _, r := range res {
		if r.Kind == Ret && r.Bad == "" {
			r.St.ev = nil

			return r.Result, r.St
		}
	}

	panic(budgetError{"a closure form does not evaluate to a value"})
}

func init() {
	rules["C02"] = rule{
		explain: "Abstract interpretation of the evaluator's SSA: the shell's stack machine is stepped over an abstract store for every builtin the start-up code registers and for every core form, with sub-commands replaced by the induction hypothesis (one fresh value, nothing else changes). Each path's evaluation trace, result and stack height is compared with a reference meaning of the form.",
		assume:  []string{"loops are followed to a stated number of unknown decisions (3) and argument lists to length 4", "library commands (package commands) are one opaque step"},
		run:     checkC02,
	}
	rules["C03"] = rule{
		explain: "Same interpretation as C02; the obligation is on frames and scopes: the caller's frame is the one in force after every form on every path, bodies run in a fresh scope whose enclosing scope is the right one, arguments are bound there and nowhere else, and a spawned body gets its own scope.",
		assume:  []string{"as C02"},
		run:     checkC03,
	}
}

func checkC02(c *Check) {
	m := mustMachine(c.P)
	m.Vars["v"] = T(m.cell, "old:v")

	for _, s := range coreShapes() {
		runShape(c, m, s, "", "value", "meaning")
	}

	whileShape(c, m, "", "value", "meaning")

	// Definition and assignment store the value they yield under the name
	// given, privately, exported, or in the existing binding.
	for _, b := range []struct {
		name, method, key string
		mk                func(m *Machine, st *State) Val
	}{
		{"define", "scope.I.Define", "k", L("'define", "'k", "A")},
		{"export", "scope.I.Export", "k", L("'export", "'k", "A")},
		{"set", "refset", "", L("'set", "'v", "A")},
	} {
		b := b

		c.guard("binds", b.name, func() {
			st := m.W.Init.clone()

			res, _, err := m.Eval(st, b.mk(m, st))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			for _, r := range res {
				if r.Kind != Ret {
					continue
				}

				stored := []string{}

				for _, e := range r.St.events() {
					what := ""

					switch {
					case e.Kind == "refset":
						what = "refset " + show(e.Args[0]) + " = " + show(r.St.norm(e.Args[1]))
					case strings.HasSuffix(e.Name, "scope.I.Define") || strings.HasSuffix(e.Name, "scope.I.Export"):
						what = e.Name[strings.LastIndex(e.Name, "scope.I"):] + " " + show(e.Args[1]) + " = " + show(r.St.norm(e.Args[2]))
					}

					if what != "" {
						stored = append(stored, what)
					}
				}

				want := b.method + " c:\"" + b.key + "\" = val:A.1"
				if b.key == "" {
					want = "refset ref:v = val:A.1"
				}

				got := strings.Join(stored, "; ")
				got = strings.ReplaceAll(got, "nonnil(ref:v)", "ref:v")
				c.ob("binds", b.name, got == want, r.Pos, "stores [%s], must store [%s]", got, want)
			}
		})
	}

	// Every registered command, for each small number of arguments: arguments
	// of a method are evaluated once each, left to right; those of a syntax
	// are not evaluated before it runs.
	var names []string
	for n := range m.builtins {
		names = append(names, n)
	}

	sort.Strings(names)

	synT := c.P.typ("internal/engine/task", "Syntax")
	nm := 0

	for _, n := range names {
		i, ok := m.builtins[n].(*Iface)
		if !ok {
			c.undecided("registration", n, "registered value %s has no known type", show(m.builtins[n]))

			continue
		}

		if synT != nil && namedOf(i.T) == synT {
			continue
		}

		nm++

		for _, kind := range []string{"strings", "lists"} {
			for k := 0; k <= 3; k++ {
				args := []string{"'" + n, "A", "B", "C"}[:k+1]
				want := strings.TrimSpace(strings.Join([]string{"A", "B", "C"}[:k], " "))

				if kind == "lists" && (k == 0 || n == "eval") {
					continue
				}

				c.guard("arguments", n, func() {
					st := m.W.Init.clone()
					on := fmt.Sprintf("%s/%d %s", n, k, kind)

					for _, a := range []string{"A", "B", "C"} {
						if kind == "strings" {
							m.subVal[a] = m.str(st, strings.ToLower(a))
						} else {
							m.subVal[a] = m.list(st, m.atom(st, "e"+a))
						}

						defer delete(m.subVal, a)
					}

					if n == "eval" && k == 1 {
						m.subVal["A"] = m.cmd("E")
						want = "A E" // the argument's value is evaluated next
					}

					res, frame, err := m.Eval(st, L(args...)(m, st))
					if err != nil {
						panic(budgetError{err.Error()})
					}

					for _, r := range res {
						if r.Kind == Trunc {
							continue
						}

						ev := strings.Join(r.Evals, " ")
						c.ob("arguments", on, ev == want, r.Pos, "evaluates [%s], must be [%s] (%s)", ev, want, r.Kind)

						if r.Kind == Ret {
							if n == "splice" {
								continue // leaves a run of values by design
							}

							if discipline(c, "value", on, m, r, frame) {
								c.pass("value", on, "one value")
							}
						} else if r.Kind == Stop && n != "exit" && n != "fatal" {
							c.fail("value", on, r.Pos, "ends the task: %s %s", r.Why, r.Bad)
						}
					}
				})
			}
		}
	}

	c.count("builtin_methods", nm)
	c.atLeast("arguments", nm, 40)
	checkCalls(c, m)
	checkSpliceForm(c, m)
	c.enter(m.In)
}

// checkCalls covers calls of user-defined closures, continuations, members
// and external commands.
func checkCalls(c *Check, m *Machine) {
	type call struct {
		name  string
		def   []string // the defining form, "" parts build params
		param string
		args  []string
		evals string
		raise bool
		res   string
	}

	params := func(m *Machine, st *State, p string) Val {
		switch p {
		case "":
			return m.null(st)
		case "x y":
			return m.list(st, m.sym(st, "x"), m.sym(st, "y"))
		case "x (r)":
			return m.list(st, m.sym(st, "x"), m.list(st, m.sym(st, "r")))
		}

		return m.list(st, m.sym(st, p))
	}

	cases := []call{
		{"method of two, body of two", []string{"'method"}, "x y", []string{"A", "B"}, "H A B P Q", false, "val:Q.1"},
		{"method with too few arguments", []string{"'method"}, "x y", []string{"A"}, "H A", true, ""},
		{"method with too many arguments", []string{"'method"}, "x", []string{"A", "B"}, "H A B", true, ""},
		{"method with rest parameter", []string{"'method"}, "x (r)", []string{"A", "B", "D"}, "H A B D P Q", false, "val:Q.1"},
		{"method with rest parameter, none left", []string{"'method"}, "x (r)", []string{"A"}, "H A P Q", false, "val:Q.1"},
		{"method without arguments", []string{"'method"}, "", nil, "H P Q", false, "val:Q.1"},
		{"syntax of two, body of two", []string{"'syntax"}, "x y", []string{"A", "B"}, "H P Q", false, "val:Q.1"},
	}

	for _, k := range cases {
		k := k

		c.guard("calls", k.name, func() {
			st := m.W.Init.clone()
			def := []Val{item(m, st, k.def[0]), params(m, st, k.param)}

			if k.def[0] == "'syntax" { // syntax takes an environment label
				def = append(def, m.sym(st, "e"))
			}

			def = append(def, m.cmd("P"), m.cmd("Q"))
			v, st := methodValue(m, st, m.list(st, def...))
			m.subVal["H"] = v

			defer delete(m.subVal, "H")

			res, frame, err := m.Eval(st, L(append([]string{"H"}, k.args...)...)(m, st))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, r := range res {
				if r.Kind == Trunc {
					continue
				}

				ev := strings.Join(r.Evals, " ")
				c.ob("calls", k.name, ev == k.evals && (r.Kind == Panic) == k.raise, r.Pos, "%s after evaluating [%s]; must %s after [%s]", r.Kind, ev, map[bool]string{true: "raise", false: "return"}[k.raise], k.evals)

				if r.Kind == Ret {
					n++

					discipline(c, "value", k.name, m, r, frame)
					c.ob("calls", k.name, k.res == "" || show(r.Result) == k.res, r.Pos, "the call's value is %s, must be %s", show(r.Result), k.res)
				}
			}

			if !k.raise && n == 0 {
				c.undecided("calls", k.name, "no path returns")
			}
		})
	}

	// (return X) inside a method body abandons the rest of the body.
	c.guard("calls", "return", func() {
		st := m.W.Init.clone()
		body := m.list(st, m.sym(st, "return"), m.cmd("X"))
		inner := m.list(st, m.sym(st, "block"), body, m.cmd("Z"))
		v, st := methodValue(m, st, m.list(st, m.sym(st, "method"), m.null(st), m.cmd("P"), inner, m.cmd("Q")))
		m.subVal["H"] = v

		defer delete(m.subVal, "H")

		res, frame, err := m.Eval(st, L("H")(m, st))
		if err != nil {
			panic(budgetError{err.Error()})
		}

		n := 0

		for _, r := range res {
			if r.Kind == Trunc {
				continue
			}

			n++

			ev := strings.Join(r.Evals, " ")
			c.ob("calls", "return", r.Kind == Ret && ev == "H P X" && show(r.Result) == "val:X.1", r.Pos, "%s [%s] giving %s; must return val:X.1 after [H P X]", r.Kind, ev, show(r.Result))

			if r.Kind == Ret {
				discipline(c, "value", "return", m, r, frame)
			}
		}

		if n == 0 {
			c.undecided("calls", "return", "no path returns")
		}
	})

	// External commands: every argument evaluated once, in order, first.
	c.guard("calls", "external command", func() {
		st := m.W.Init.clone()
		m.subVal["S"] = m.str(st, "x")

		defer delete(m.subVal, "S")

		res, frame, err := m.Eval(st, L("\"prog", "S", "\"y", "S")(m, st))
		if err != nil {
			panic(budgetError{err.Error()})
		}

		n := 0

		for _, r := range res {
			if r.Kind == Trunc {
				continue
			}

			n++

			ev := strings.Join(r.Evals, " ")
			c.ob("calls", "external command", ev == "S S", r.Pos, "%s evaluates [%s], must be [S S]", r.Kind, ev)

			if r.Kind == Ret {
				discipline(c, "value", "external command", m, r, frame)
			}
		}

		c.atLeast("calls: external command", n, 2)
	})

	// Members of lists and conduits.
	for _, k := range []string{"length", "append"} {
		k := k

		c.guard("calls", "list member "+k, func() {
			st := m.W.Init.clone()
			m.subVal["H"] = m.cmd("somelist")

			defer delete(m.subVal, "H")

			res, frame, err := m.Eval(st, L("H", "'"+k, "A", "B")(m, st))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, r := range res {
				if r.Kind == Trunc {
					continue
				}

				ev := strings.Join(r.Evals, " ")
				c.ob("calls", "list member "+k, ev == "H A B", r.Pos, "%s evaluates [%s], must be [H A B]", r.Kind, ev)

				if r.Kind == Ret {
					n++

					discipline(c, "value", "list member "+k, m, r, frame)
				}
			}

			c.atLeast("calls: list member "+k, n, 1)
		})
	}
}

// checkSpliceForm: splicing contributes the list's elements, in order, as
// separate arguments.
func checkSpliceForm(c *Check, m *Machine) {
	c.guard("splice", "(method (splice L) B)", func() {
		st := m.W.Init.clone()
		v, st := methodValue(m, st, m.list(st, m.sym(st, "method"), m.list(st, m.sym(st, "x"), m.sym(st, "y"), m.sym(st, "z")), m.cmd("P")))
		m.subVal["H"] = v
		lst := m.list(st, m.atom(st, "e1"), m.atom(st, "e2"))
		m.subVal["S"] = lst

		defer delete(m.subVal, "H")
		defer delete(m.subVal, "S")

		res, _, err := m.Eval(st, m.list(st, m.cmd("H"), m.list(st, m.sym(st, "splice"), m.cmd("S")), m.cmd("B")))
		if err != nil {
			panic(budgetError{err.Error()})
		}

		n := 0

		for _, r := range res {
			if r.Kind == Trunc {
				continue
			}

			n++

			ev := strings.Join(r.Evals, " ")
			c.ob("splice", "(method (splice L) B)", r.Kind == Ret && ev == "H S B P", r.Pos, "%s evaluates [%s] %s, must return after [H S B P]", r.Kind, ev, r.Why)

			if r.Kind == Ret {
				discipline(c, "value", "splice", m, r, nil)

				for i, e := range r.St.events() {
					if e.Kind == "eval" && e.Name == "P" {
						for j, want := range []string{"atom:e1", "atom:e2", "val:B.1"} {
							g := bindingIn(m, r.St, e.Args[0], []string{"x", "y", "z"}[j])
							c.ob("splice", "binding "+[]string{"x", "y", "z"}[j], g == want, token.NoPos, "event %d: bound to %s, must be %s", i, g, want)
						}
					}
				}
			}
		}

		if n == 0 {
			c.undecided("splice", "(method (splice L) B)", "no path returns")
		}
	})
}

// bindingIn looks name up in the scope of a frame, without leaving the path.
func bindingIn(m *Machine, st *State, frame Val, name string) string {
	v, why := boundIn(m, st, frame, name)
	if v == nil {
		return why
	}

	return v.Key()
}

// boundIn is the value a name has in a frame's scope, or why it has none.
func boundIn(m *Machine, st *State, frame Val, name string) (Val, string) {
	s := st.clone()

	sc, s, err := scopeOf(m, s, frame)
	if err != nil {
		return nil, err.Error()
	}

	i, ok := sc.(*Iface)
	if !ok {
		return nil, "unknown scope " + show(sc)
	}

	f := m.P.SSA.LookupMethod(i.T, nil, "Lookup")

	r, s, err := m.call1(s, f, i.V, cStr(name))
	if err != nil {
		return nil, err.Error()
	}

	ri, ok := r.(*Iface)
	if !ok {
		return nil, "unbound:" + show(r)
	}

	v, s, err := m.call1(s, m.P.SSA.LookupMethod(ri.T, nil, "Get"), ri.V)
	if err != nil {
		return nil, err.Error()
	}

	return s.norm(v), ""
}

func scopeOf(m *Machine, st *State, frame Val) (Val, *State, error) {
	ft := types.NewPointer(m.P.typ("internal/common/struct/frame", "T"))

	v, s, err := m.call1(st, m.P.SSA.LookupMethod(ft, nil, "Scope"), frame)
	if err != nil {
		return nil, st, err
	}

	return s.norm(v), s, nil
}

// enclosing lists the chain of scopes from a frame's scope outwards.
func enclosing(m *Machine, st *State, frame Val) []string {
	s := st.clone()

	var out []string

	sc, s, err := scopeOf(m, s, frame)
	if err != nil {
		return []string{err.Error()}
	}

	for i := 0; i < 8; i++ {
		out = append(out, sc.Key())

		x, ok := sc.(*Iface)
		if !ok {
			return out
		}

		v, s2, err := m.call1(s, m.P.SSA.LookupMethod(x.T, nil, "Enclosing"), x.V)
		if err != nil {
			return append(out, err.Error())
		}

		sc, s = s2.norm(v), s2
	}

	return out
}

func checkC03(c *Check) {
	m := mustMachine(c.P)
	m.Vars["v"] = T(m.cell, "old:v")

	shapes := coreShapes()
	for i := range shapes {
		shapes[i].want = nil
	}

	for _, s := range shapes {
		runShape(c, m, s, "frame-restored", "", "runs")
	}

	whileShape(c, m, "frame-restored", "", "")

	base := "nonnil(SCOPE)"

	// Bodies run in a fresh scope directly inside the caller's.
	for _, s := range []struct {
		name string
		mk   func(m *Machine, st *State) Val
		body string
	}{
		{"block", L("'block", "A", "B"), "A B"},
		{"if", L("'if", "C", "A", "'else", "B"), "A B"},
		{"while", L("'while", "C", "A", "B"), "A B"},
	} {
		s := s

		c.guard("fresh-scope", s.name, func() {
			st := m.W.Init.clone()
			res, frame, err := m.Eval(st, s.mk(m, st))

			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, r := range res {
				for _, e := range r.St.events() {
					if e.Kind != "eval" || !strings.Contains(s.body, e.Name) {
						continue
					}

					n++

					ch := enclosing(m, r.St, e.Args[0])
					c.ob("fresh-scope", s.name, len(ch) == 2 && ch[1] == base && e.Args[0].Key() != frame.Key(), token.NoPos, "body command %s runs with scope chain %v; must be one fresh scope inside the caller's", e.Name, ch)
				}
			}

			c.atLeast("fresh-scope "+s.name, n, 2)
		})
	}

	// Definitions made inside a body land in the body's scope and are
	// visible to the rest of it; nothing is defined in the caller's scope.
	for _, s := range []struct {
		name string
		mk   func(m *Machine, st *State) Val
	}{
		{"block", func(m *Machine, st *State) Val {
			return m.list(st, m.sym(st, "block"), L("'define", "'k", "A")(m, st), m.cmd("B"))
		}},
		{"if", func(m *Machine, st *State) Val {
			return m.list(st, m.sym(st, "if"), m.cmd("C"), L("'define", "'k", "A")(m, st), m.cmd("B"), m.sym(st, "else"), L("'define", "'k", "A")(m, st), m.cmd("B"))
		}},
		{"while", func(m *Machine, st *State) Val {
			return m.list(st, m.sym(st, "while"), m.cmd("C"), L("'define", "'k", "A")(m, st), m.cmd("B"))
		}},
	} {
		s := s

		c.guard("local-definition", s.name, func() {
			st := m.W.Init.clone()

			res, _, err := m.Eval(st, s.mk(m, st))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, r := range res {
				outer := ""

				for _, e := range r.St.events() {
					if (strings.HasSuffix(e.Name, "scope.I.Define") || strings.HasSuffix(e.Name, "scope.I.Export")) && e.Args[0].Key() == base {
						outer = show(e.Args[1])
					}

					if e.Kind == "eval" && e.Name == "B" {
						n++

						g := bindingIn(m, r.St, e.Args[0], "k")
						c.ob("local-definition", s.name, strings.HasPrefix(g, "val:A"), e.Pos, "inside the body k is %s after being defined as A's value", g)
					}
				}

				c.ob("local-definition", s.name, outer == "", r.Pos, "a definition inside the body must not reach the caller's scope (defines %s there)", outer)
			}

			c.atLeast("local-definition "+s.name, n, 1)
		})
	}

	checkClosureScopes(c, m, base)
	checkSpawnScope(c, m, base)
	checkReturnFrame(c, m)
	c.enter(m.In)
	checkEvalScope(c, "eval-scope")
}

func checkClosureScopes(c *Check, m *Machine, base string) {
	for _, kind := range []string{"method", "syntax"} {
		kind := kind

		c.guard("closure-scope", kind, func() {
			st := m.W.Init.clone()
			def := []Val{m.sym(st, kind), m.list(st, m.sym(st, "x"), m.list(st, m.sym(st, "r")))}

			if kind == "syntax" {
				def = append(def, m.sym(st, "e"))
			}

			v, st := methodValue(m, st, m.list(st, append(def, m.cmd("P"), m.cmd("Q"))...))
			m.subVal["H"] = v

			defer delete(m.subVal, "H")

			// Call it from inside a block, so that caller and definition differ.
			res, frame, err := m.Eval(st, m.list(st, m.sym(st, "block"), m.list(st, m.cmd("H"), m.cmd("A"), m.cmd("B")), m.cmd("Z")))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, r := range res {
				if r.Kind != Ret {
					continue
				}

				c.ob("frame-restored", "call of "+kind, sameFrame(r, frame), r.Pos, "after the enclosing block the frame is %s", show(r.Frame))

				callerScope := ""

				for _, e := range r.St.events() {
					if e.Kind != "eval" {
						continue
					}

					ch := enclosing(m, r.St, e.Args[0])

					switch e.Name {
					case "H":
						callerScope = ch[0]
					case "Z":
						c.ob("frame-restored", "call of "+kind, ch[0] == callerScope, token.NoPos, "the command after the call runs in scope %s, the call was made in %s", ch[0], callerScope)
					case "P", "Q":
						n++

						c.ob("closure-scope", kind, len(ch) == 2 && ch[1] == base && ch[0] != callerScope, token.NoPos, "the body runs with scope chain %v; must be one fresh scope inside the defining one (%s)", ch, base)

						x := bindingIn(m, r.St, e.Args[0], "x")
						if kind == "method" {
							c.ob("arguments-bound", kind, x == "val:A.1", token.NoPos, "first parameter is bound to %s, must be the first argument's value", x)
						} else {
							c.ob("arguments-bound", kind, strings.Contains(x, "cmd:A"), token.NoPos, "first parameter of a syntax is bound to %s, must be the argument unevaluated", x)
							le := bindingIn(m, r.St, e.Args[0], "e")
							c.ob("arguments-bound", "environment of "+kind, le == callerScope, token.NoPos, "the environment label is bound to %s, must be the caller's scope %s", le, callerScope)
						}

						rest := bindingInList(m, r.St, e.Args[0], "r")
						want := "( val:B.1)"

						if kind == "syntax" {
							want = "( B)"
						}

						c.ob("arguments-bound", "rest of "+kind, rest == want, token.NoPos, "rest parameter is %s, must be %s", rest, want)
					}
				}

				for _, e := range r.St.events() {
					if strings.HasSuffix(e.Name, "scope.I.Define") && e.Args[0].Key() == base {
						c.fail("closure-scope", kind, e.Pos, "calling it defines %s in the defining scope", show(e.Args[1]))
					}
				}
			}

			c.atLeast("closure-scope "+kind, n, 2)
		})
	}
}

func bindingInList(m *Machine, st *State, frame Val, name string) string {
	s := st.clone()

	sc, s, err := scopeOf(m, s, frame)
	if err != nil {
		return err.Error()
	}

	i, ok := sc.(*Iface)
	if !ok {
		return "?"
	}

	r, s, err := m.call1(s, m.P.SSA.LookupMethod(i.T, nil, "Lookup"), i.V, cStr(name))
	if err != nil {
		return err.Error()
	}

	ri, ok := r.(*Iface)
	if !ok {
		return "unbound"
	}

	v, s, err := m.call1(s, m.P.SSA.LookupMethod(ri.T, nil, "Get"), ri.V)
	if err != nil {
		return err.Error()
	}

	return m.flat(s, s.norm(v))
}

// checkSpawnScope follows the spawned task itself.
func checkSpawnScope(c *Check, m *Machine, base string) {
	c.guard("spawn", "(spawn A B)", func() {
		st := m.W.Init.clone()

		res, frame, err := m.Eval(st, L("'spawn", "A", "B")(m, st))
		if err != nil {
			panic(budgetError{err.Error()})
		}

		n := 0

		for _, r := range res {
			if r.Kind != Ret {
				continue
			}

			started := false

			var parent, child Val

			for _, e := range r.St.events() {
				if strings.HasSuffix(e.Name, ".Spawn") && len(e.Args) >= 3 {
					started = true
					parent, child = e.Args[1], e.Args[2]
				}
			}

			if !c.ob("spawn", "(spawn A B)", started, r.Pos, "spawn must hand the new task to the job") {
				continue
			}

			x, ok := r.Result.(*Iface)
			if !c.ob("spawn", "(spawn A B)", ok && x.V.Key() == child.Key() && child.Key() != parent.Key(), r.Pos, "spawn returns %s, must be the started task %s (parent %s)", show(r.Result), show(child), show(parent)) {
				continue
			}

			st := r.St.clone()
			st.ev = nil

			op, st, err := m.call1(st, m.meth("Op"), child)
			if err != nil {
				panic(budgetError{err.Error()})
			}

			for _, q := range m.drive(child, mItem{st: st, op: st.norm(op)}) {
				if q.Kind == Trunc {
					continue
				}

				n++

				c.ob("spawn", "spawned body", strings.Join(q.Evals, " ") == "A B", q.Pos, "the new task evaluates [%s], must be [A B] (%s)", strings.Join(q.Evals, " "), q.Kind)

				for _, e := range q.St.events() {
					if e.Kind == "eval" {
						ch := enclosing(m, q.St, e.Args[0])
						c.ob("fresh-scope", "spawn", len(ch) == 2 && ch[1] == base && e.Args[0].Key() != frame.Key(), token.NoPos, "spawned command %s runs with scope chain %v in frame %s (parent's %s); must have its own frame and scope", e.Name, ch, show(e.Args[0]), show(frame))
					}
				}
			}
		}

		c.atLeast("spawn", n, 1)
	})
}

// checkReturnFrame: leaving a method early restores the caller's frame.
func checkReturnFrame(c *Check, m *Machine) {
	c.guard("frame-restored", "return", func() {
		st := m.W.Init.clone()
		inner := m.list(st, m.sym(st, "block"), m.list(st, m.sym(st, "return"), m.cmd("X")), m.cmd("Z"))
		v, st := methodValue(m, st, m.list(st, m.sym(st, "method"), m.null(st), inner))
		m.subVal["H"] = v

		defer delete(m.subVal, "H")

		res, frame, err := m.Eval(st, m.list(st, m.sym(st, "block"), m.list(st, m.cmd("H")), m.cmd("Y")))
		if err != nil {
			panic(budgetError{err.Error()})
		}

		n := 0

		for _, r := range res {
			if r.Kind != Ret {
				continue
			}

			n++

			c.ob("frame-restored", "return", sameFrame(r, frame), r.Pos, "after the enclosing block the frame is %s", show(r.Frame))

			call := ""

			for _, e := range r.St.events() {
				if e.Kind != "eval" {
					continue
				}

				ch := enclosing(m, r.St, e.Args[0])

				switch e.Name {
				case "H":
					call = ch[0]
				case "Y":
					c.ob("frame-restored", "return", ch[0] == call, token.NoPos, "the command after an early return runs in scope %s, the call was made in %s", ch[0], call)
				}
			}
		}

		c.atLeast("frame-restored return", n, 1)
	})
}
