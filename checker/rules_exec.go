package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	rules["C07"] = rule{
		explain: "Every form of running an external program is evaluated through the evaluator for arbitrary argument texts and the request made of the operating system compared with the command: the file found by name along PATH, the name as given followed by every argument in order, the current PWD as directory, stdin, stdout and stderr as the first three files, and the exported variables as environment. The environment is evaluated over chains of scopes and frames for every pattern of private and exported definitions, the job service for what reaches the system call, and start-up for the environment inherited.",
		assume:  []string{"adapted.LookPath finds executables as documented", "chains of two scopes and two frames stand for longer ones"},
		run:     checkC07,
	}
}

const (
	kLookPath = "github.com/michaelmacinnis/adapted.LookPath"
	relPipe   = "internal/common/type/pipe"
	relFrame  = "internal/common/struct/frame"
)

func checkC07(c *Check) {
	c.guard("launch", "evaluator", func() { c.launch() })
	c.guard("environ", "scopes", func() { c.environ() })
	c.guard("start", "job service", func() { c.startProcess() })
	c.guard("inherit", "start-up", func() { c.inherit() })
}

// environMethod finds the method of a task that collects the environment: the
// value given to the Env field when a process is started.
func environName(p *Program) string {
	tt := types.NewPointer(p.typ(relTask, "T"))
	want := types.NewSlice(types.Typ[types.String])

	ms := p.SSA.MethodSets.MethodSet(tt)
	name := ""

	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		s := f.Type().(*types.Signature)

		if s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), want) {
			if name != "" {
				panic(budgetError{"two methods of a task return texts"})
			}

			name = f.Name()
		}
	}

	if name == "" {
		panic(budgetError{"no method of a task returns the environment"})
	}

	return name
}

func (c *Check) launch() {
	m := mustMachine(c.P)
	p := c.P
	str := types.Typ[types.String]
	tt := types.NewPointer(p.typ(relTask, "T"))
	env := p.SSA.LookupMethod(tt, nil, environName(p))

	if env == nil {
		panic(budgetError{"environment method not found"})
	}

	pathHooks(m.In)
	internSyms(m)

	m.In.Hooks[p.fname(env)] = func(cc *CallCtx) ([]Out, bool) {
		return ret(cc.St, T(cc.Res, "environ", cc.Args[0])), true
	}

	for _, n := range []string{"R", "W"} {
		n := n
		m.In.Hooks[relPipe+"."+n] = func(cc *CallCtx) ([]Out, bool) {
			return ret(cc.St, T(cc.Res, "end:"+n, cc.St.norm(cc.Args[0]))), true
		}
	}

	found := "file"
	m.In.Hooks[kLookPath] = func(cc *CallCtx) ([]Out, bool) {
		cc.St.event("lookpath", kLookPath, cc.From, cc.Pos, nil, cc.St.norm(cc.Args[0]), cc.St.norm(cc.Args[1]))

		errT := cc.Res.(*types.Tuple).At(2).Type()

		if found == "none" {
			e := T(errT, "not-found")
			nonNil(cc.St, e)

			return ret(cc.St, Tuple{cStr(""), cBool(false), e}), true
		}

		return ret(cc.St, Tuple{T(str, "FOUND", cc.St.norm(cc.Args[0])), cBool(true), Nil{}}), true
	}

	txt := func(n string) Val { return T(str, n) }

	type form struct {
		name string
		mk   func(st *State) Val
		argv []Val
		bad  bool
	}

	sv := func(st *State, n string) Val { return m.strVal(st, txt(n)) }

	forms := []form{
		{"no arguments", func(st *State) Val { return m.list(st, sv(st, "N")) }, []Val{txt("N")}, false},
		{"one argument", func(st *State) Val { return m.list(st, sv(st, "N"), sv(st, "X")) }, []Val{txt("N"), txt("X")}, false},
		{"two arguments", func(st *State) Val { return m.list(st, sv(st, "N"), sv(st, "X"), sv(st, "Y")) }, []Val{txt("N"), txt("X"), txt("Y")}, false},
		{"the same argument twice", func(st *State) Val { return m.list(st, sv(st, "N"), sv(st, "X"), sv(st, "X")) }, []Val{txt("N"), txt("X"), txt("X")}, false},
		{"four arguments", func(st *State) Val {
			return m.list(st, sv(st, "N"), sv(st, "X"), sv(st, "Y"), sv(st, "Z"), sv(st, "W"))
		}, []Val{txt("N"), txt("X"), txt("Y"), txt("Z"), txt("W")}, false},
		{"an empty argument", func(st *State) Val { return m.list(st, sv(st, "N"), m.str(st, ""), sv(st, "X")) }, []Val{txt("N"), cStr(""), txt("X")}, false},
		{"plain symbols", func(st *State) Val {
			return m.list(st, m.sym(st, "prog"), m.sym(st, "-l"), sv(st, "X"), m.sym(st, "a=b"))
		}, []Val{cStr("prog"), cStr("-l"), txt("X"), cStr("a=b")}, false},
		{"command", func(st *State) Val { return m.list(st, m.sym(st, "command"), sv(st, "N"), sv(st, "X")) }, []Val{txt("N"), txt("X")}, false},
		{"an argument without a text", nil, nil, true},
	}

	for i := range forms {
		f := forms[i]

		for _, found = range []string{"file", "none"} {
			on := f.name + map[string]string{"file": "", "none": ", nothing of that name on the PATH"}[found]

			c.guard("launch", on, func() {
				st := m.W.Init.clone()

				if f.bad {
					// A sub-command giving a pipe.
					m.subVal["P"] = m.Vars["stdin"]
					f.mk = func(st *State) Val { return m.list(st, sv(st, "N"), m.cmd("P")) }
				}

				res, _, err := m.Eval(st, f.mk(st))
				if err != nil {
					panic(budgetError{err.Error()})
				}

				delete(m.subVal, "P")

				n := 0

				for _, r := range res {
					if r.Kind == Trunc {
						continue
					}

					n++
					c.Counts["evaluations"]++

					ex := effects(r.St, "Execute", "Refused")
					lp := effects(r.St, kLookPath)

					if f.bad || found == "none" {
						c.ob("no-launch", on, len(ex) == 0 && r.Kind == Panic, r.Pos, "%d programs are started and the command %s; must raise and start none", len(ex), r.Kind)

						continue
					}

					if !c.ob("launch-once", on, len(ex) == 1 && len(lp) == 1, r.Pos, "%d programs are started after %d searches (%s %s); must be one", len(ex), len(lp), r.Kind, r.Why) {
						continue
					}

					look := func(n string) Val { return textOf(r.St, m.Vars[n]) }

					c.ob("search", on, lp[0].Args[0].Key() == f.argv[0].Key(), lp[0].Pos, "searches for %s; must be %s", show(lp[0].Args[0]), show(f.argv[0]))
					c.ob("search-path", on, lp[0].Args[1].Key() == look("PATH").Key(), lp[0].Pos, "searches along %s; must be PATH", show(lp[0].Args[1]))

					e := ex[0]
					if len(e.Args) != 5 {
						panic(budgetError{"Execute has a different signature"})
					}

					file := r.St.norm(e.Args[2])
					c.ob("file", on, file.Key() == T(str, "FOUND", f.argv[0]).Key(), e.Pos, "runs %s; must be the file found", show(file))

					c.sliceIs(m.In, r.St, "argv", on, e, e.Args[3], str, f.argv)
					c.attributes(m, r.St, on, e, e.Args[4], look("PWD"), T(types.NewSlice(str), "environ", e.Args[1]))

					if e.Name == "Refused" {
						c.ob("start-error", on, r.Kind == Panic, r.Pos, "the program could not be started and the command %s; must raise", r.Kind)
					} else {
						c.ob("started", on, r.Kind == Ret && r.Bad == "", r.Pos, "the program was started and the command %s %s", r.Kind, r.Bad)
					}
				}

				c.atLeast("launch "+on, n, 1)
			})
		}
	}

	c.enter(m.In)
}

func (c *Check) sliceIs(in *Interp, st *State, rule, on string, e *Ev, v Val, et types.Type, want []Val) {
	s, ok := st.norm(v).(*Slice)
	if !ok {
		c.undecided(rule, on, "%s is %s", rule, show(v))

		return
	}

	var got []string

	same := true
	es := in.elems(st, s, et)

	for i, x := range es {
		x = st.norm(x)
		got = append(got, show(x))
		same = same && i < len(want) && want[i].Key() == x.Key()
	}

	var exp []string
	for _, w := range want {
		exp = append(exp, show(w))
	}

	c.ob(rule, on, same && len(es) == len(want), e.Pos, "%s is [%s]; must be [%s]", rule, strings.Join(got, ", "), strings.Join(exp, ", "))
}

// attributes checks the os.ProcAttr a program is started with.
func (c *Check) attributes(m *Machine, st *State, on string, e *Ev, attr, pwd, env Val) {
	root, path, ok := addr(st.norm(attr))
	if !ok {
		c.undecided("attributes", on, "attributes are %s", show(attr))

		return
	}

	at := c.P.extType("os", "ProcAttr")
	field := func(n string) Val {
		return st.norm(st.loadAt(root, path+"."+n, fieldNamed(at, n)))
	}

	c.ob("directory", on, field("Dir").Key() == pwd.Key(), e.Pos, "directory is %s; must be PWD, %s", show(field("Dir")), show(pwd))
	c.ob("environment", on, field("Env").Key() == env.Key(), e.Pos, "environment is %s; must be the exported variables", show(field("Env")))

	ft := types.NewPointer(c.P.extType("os", "File"))

	var want []Val

	for i, n := range []string{"stdin", "stdout", "stderr"} {
		v, ok := m.Vars[n]
		if !ok {
			v, ok = m.builtins[n]
		}

		if !ok {
			panic(budgetError{n + " is not a variable of the machine"})
		}

		want = append(want, T(ft, "end:"+[]string{"R", "W", "W"}[i], st.norm(v)))
	}

	c.sliceIs(m.In, st, "files", on, e, field("Files"), ft, want)
}

// fieldNamed is the type of a field of an external structure.
func fieldNamed(t types.Type, name string) types.Type {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}

	panic(budgetError{"no field " + name + " in " + tstr(t)})
}

// environ evaluates the environment a task passes on, for every pattern of
// definitions of a name over two scopes of two frames.
func (c *Check) environ() {
	k := newKit(c)
	p := c.P
	k.in.MaxVisit = 12

	tt := types.NewPointer(p.typ(relTask, "T"))
	env := p.SSA.LookupMethod(tt, nil, environName(p))
	newTask := p.fn(relTask, "New")
	newF, dup := p.fn(relFrame, "New"), p.fn(relFrame, "Dup")

	if env == nil || newTask == nil || newF == nil || dup == nil {
		panic(budgetError{"constructors of tasks and frames not found"})
	}

	name := p.fname(p.SSA.LookupMethod(k.ptrT("internal/common/type/pair", "T"), nil, "String"))
	plain := k.in.Hooks[name]
	k.in.Hooks[name] = func(cc *CallCtx) ([]Out, bool) {
		if m := cc.St.User["mixed"]; m != nil && m.Key() == cc.Args[0].Key() {
			return []Out{{St: cc.St, Kind: Panic, Val: T(nil, "no text"), Why: "a member has no text", Pos: cc.Pos}}, true
		}

		return plain(cc)
	}

	for _, reverse := range []bool{false, true} {
		k.in.Reverse = reverse

		for mask := 0; mask < 1<<8; mask++ {
			c.guard("environ", "two frames", func() {
				s := &scopes{k, k.st0.clone()}
				here, there := s.chain(2, mask&15, "h"), s.chain(2, mask>>4, "t")

				// Something that has no text, and a text only in one place.
				pipe := &Iface{k.ptrT(relPipe, "T"), P(&Obj{ID: "a pipe", T: k.ptrT(relPipe, "T").(*types.Pointer).Elem(), Sym: true, Base: true}, "")}
				s.must(here[0], "Export", cStr("conduit"), pipe)

				// A list has a text, but not if a member has none.
				mixed := k.list(s.st, pipe)
				s.st.User["mixed"] = mixed.(*Iface).V
				s.must(here[0], "Export", cStr("mixed"), mixed)
				s.must(there[1], "Export", cStr("far"), s.value("far"))
				s.must(here[0], "Define", cStr("secret"), s.value("secret"))
				s.must(there[1], "Define", cStr("secret"), s.value("secret"))

				f1, _ := s.do(newF, there[1], Nil{})
				f1, _ = s.do(dup, there[0], f1)
				f0, _ := s.do(newF, here[1], f1)
				f0, _ = s.do(dup, here[0], f0)
				t, _ := s.do(newTask, Nil{}, k.null(s.st), f0)

				want := map[string]Val{}
				text := func(n string) Val { return k.text(s.st, s.value(n)) }

				for fr, pre := range []string{"h", "t"} {
					for i := 0; i < 2 && want[theName] == nil; i++ {
						if mask>>(4*fr+2*i+1)&1 == 1 {
							want[theName] = text(fmt.Sprint(pre, i, "exported"))
						}
					}
				}

				want["other"], want["far"] = text("other"), text("far")

				v, ok := s.do(env, t)
				sl, isS := v.(*Slice)

				if !ok || !isS {
					c.fail("environ", "two frames", env.Pos(), "defined in %08b: gives %s", mask, show(v))

					return
				}

				var got, exp []string
				for _, e := range k.in.elems(s.st, sl, types.Typ[types.String]) {
					got = append(got, s.st.norm(e).Key())
				}

				for n, x := range want {
					exp = append(exp, concat(types.Typ[types.String], cStr(n+"="), x).Key())
				}

				sort.Strings(got)
				sort.Strings(exp)
				c.ob("environ", "two frames", strings.Join(got, " ") == strings.Join(exp, " "), env.Pos(), "defined in %08b: the environment is [%s]; must be [%s]", mask, strings.Join(got, " "), strings.Join(exp, " "))
			})
		}
	}

	k.in.Reverse = false
	c.enter(k.in)
}

// startProcess checks what reaches the system call.
func (c *Check) startProcess() {
	j := newJobs(c)
	str := types.Typ[types.String]
	at := j.p.extType("os", "ProcAttr")
	ft := types.NewPointer(j.p.extType("os", "File"))

	for _, group := range []bool{false, true} {
		for _, fails := range []bool{false, true} {
			on := fmt.Sprintf("start in a job with a process %v, refused %v", group, fails)

			j.explore("start", on, func(q *seq) {
				_, main, _ := j.session(q)

				if group {
					j.execute(q, j.task(q), 100)
				}

				mark := q.st.ev
				pid := Val(cInt(200))

				if fails {
					pid = Nil{}
				}

				e := T(types.Universe.Lookup("error").Type(), "start-error")
				nonNil(q.st, e)
				q.st.User["start-error"] = e
				q.st.User["start"] = Tuple{pid}

				attr := P(&Obj{ID: "attr!" + q.st.fresh(), T: at}, "")
				argv := q.slice(str, T(str, "ARG0"), T(str, "ARG1"))
				env := q.slice(str, T(str, "ENTRY0"), T(str, "ENTRY1"))
				files := q.slice(ft, T(ft, "FILE0"), T(ft, "FILE1"), T(ft, "FILE2"))
				root, path, _ := addr(attr)

				for n, v := range map[string]Val{"Dir": T(str, "DIR"), "Env": env, "Files": files} {
					q.st.storeAt(root, path+"."+n, v, fieldNamed(at, n))
				}

				errv := q.call(j.jm("Execute"), q.st.User["job"], main, T(str, "FILE"), argv, attr)

				var starts []*Ev

				for _, x := range q.since(mark) {
					if x.Kind == "start" {
						starts = append(starts, x)
					}
				}

				if !q.ok(len(starts) == 1 && len(starts[0].Args) == 3, "%d processes are started; must be one", len(starts)) {
					return
				}

				x := starts[0]
				q.ok(q.st.norm(x.Args[0]).Key() == T(str, "FILE").Key(), "starts %s; must be the file asked for", show(x.Args[0]))
				c.sliceIs(j.in, q.st, "start-argv", on, x, x.Args[1], str, []Val{T(str, "ARG0"), T(str, "ARG1")})

				r, p, ok := addr(q.st.norm(x.Args[2]))
				if !q.ok(ok, "attributes are %s", show(x.Args[2])) {
					return
				}

				get := func(n string) Val { return q.st.norm(q.st.loadAt(r, p+"."+n, fieldNamed(at, n))) }
				q.ok(get("Dir").Key() == T(str, "DIR").Key(), "starts in %s; must be the directory asked for", show(get("Dir")))
				c.sliceIs(j.in, q.st, "start-env", on, x, get("Env"), str, []Val{T(str, "ENTRY0"), T(str, "ENTRY1")})
				c.sliceIs(j.in, q.st, "start-files", on, x, get("Files"), ft, []Val{T(ft, "FILE0"), T(ft, "FILE1"), T(ft, "FILE2")})

				if fails {
					q.ok(errv.Key() == e.Key() || errv.Key() == T(nil, "nonnil", e).Key(), "the reason for not starting is answered as %s", show(errv))
				} else {
					q.ok(isNil(errv), "a started process is answered with %s", show(errv))
				}
			})
		}
	}

	c.enter(j.in)
}

// inherit checks that the environment the shell is started with is the one
// it passes on, but for the names the shell itself defines.
func (c *Check) inherit() {
	p := c.P
	in := newSim(c, "internal/engine").in
	str := types.Typ[types.String]
	in.MaxVisit = 24
	pathHooks(in)

	entries := []string{"A=1", "B=x=y", "C=", "PATH=/bin:/usr/bin", "D==", "LONG_name_1=two words\ttab 'quote' $A ~ *", "stdin=file", "export=no", "no-equals-sign"}
	want := map[string]string{"A": "1", "B": "x=y", "C": "", "PATH": "/bin:/usr/bin", "D": "=", "LONG_name_1": "two words\ttab 'quote' $A ~ *"}

	reads := 0
	list := func(st *State, ss ...string) Val {
		o := st.alloc(str, "texts")
		for i, x := range ss {
			st.storeAt(o, fmt.Sprintf("[%d]", i), cStr(x), str)
		}

		return &Slice{Root: o, Len: len(ss), Cap: len(ss)}
	}

	in.Hooks["os.Environ"] = func(cc *CallCtx) ([]Out, bool) {
		reads++

		return ret(cc.St, list(cc.St, entries...)), true
	}

	tt := types.NewPointer(p.typ(relTask, "T"))
	env := p.SSA.LookupMethod(tt, nil, environName(p))
	newTask := p.fn(relTask, "New")
	ft := types.NewPointer(p.typ(relFrame, "T"))
	// The package initialisers, for this environment.
	w, err := initWorldIn(p, in, "internal/engine")
	if err != nil {
		panic(budgetError{err.Error()})
	}

	st := w.Init.clone()

	c.ob("inherit", "start-up", reads > 0, env.Pos(), "the environment is read %d times when the shell starts", reads)

	for _, g := range globalsOf(p, "internal/engine") {
		if !types.Identical(deref(g.Type()), ft) {
			continue
		}

		fr := st.load(in.globalPtr(g), ft)
		o := one(in.Call(st, newTask, []Val{Nil{}, Nil{}, fr}, nil, 0, false))
		o = one(in.Call(o.St, env, []Val{o.Val}, nil, 0, false))

		sl, ok := o.St.norm(o.Val).(*Slice)
		if !ok {
			c.undecided("inherit", "start-up", "the environment is %s", show(o.Val))

			continue
		}

		got := map[string]int{}
		for _, e := range in.elems(o.St, sl, str) {
			x, ok := asStr(o.St.norm(e))
			if !ok {
				x = show(e)
			}

			got[x]++
		}

		for k, v := range want {
			c.ob("inherit", k, got[k+"="+v] == 1, env.Pos(), "%s=%s is passed on %d times; must be once", k, v, got[k+"="+v])
			delete(got, k+"="+v)
		}

		// What else there is must not come from the environment.
		for x := range got {
			c.ob("inherit", "nothing else", strings.HasPrefix(x, "="), env.Pos(), "passes on %s, which the shell was not given", x)
		}
	}

	c.enter(in)
}

func one(outs []Out) Out {
	if len(outs) != 1 || outs[0].Kind != Ret {
		panic(budgetError{fmt.Sprintf("%d outcomes where one is expected", len(outs))})
	}

	return outs[0]
}
