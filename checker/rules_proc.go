package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C08"] = rule{
		explain: "Every way of changing directory (cd with a relative, absolute or tilde argument, with none, with -, and naming a directory as a command) is evaluated through the evaluator for an arbitrary argument, PWD, OLDPWD and HOME and for success and failure of the system call: the process changes to exactly the directory the argument means, PWD and OLDPWD then name the new and the previous directory in the current scope, and a failed change leaves all three alone. Other uses of chdir and other assignments of PWD in the program are violations.",
		assume:  []string{"PWD holds an absolute path", "path/filepath joins and cleans paths as documented"},
		run:     checkC08,
	}
	rules["C09"] = rule{
		explain: "The job service is evaluated for every exit code, every signal with and without a core, and the status handed to the waiting task compared with the code, or 128 plus the signal. The evaluator is evaluated for external commands (the command's value is that status), for exit and fatal with every number of arguments, and the engine's top-level evaluation for every kind of result: the process exits exactly when the task did, with the integer value of the result or else its truth, and otherwise $? becomes the result. Every other use of os.Exit must give a non-zero constant.",
		assume:  []string{"wait statuses have the Linux layout", "as C12 for the job service"},
		run:     checkC09,
	}
}

// pathHooks models the lexical path functions over a normal form: joining
// and cleaning are one operation, clean(text), so that different ways of
// building the same path compare equal.
func pathHooks(in *Interp) {
	str := types.Typ[types.String]

	clean := func(st *State, v Val) Val {
		if s, ok := asStr(v); ok {
			return cStr(filepath.Clean(s))
		}

		if t := asTerm(v); t != nil && t.Op == "clean" {
			return v
		}

		return st.norm(T(str, "clean", v))
	}

	join := func(c *CallCtx) ([]Out, bool) {
		if isNil(c.Args[0]) {
			return ret(c.St, cStr("")), true
		}

		s, ok := c.Args[0].(*Slice)
		if !ok {
			return nil, false
		}

		var v Val = cStr("")

		for i, e := range in.elems(c.St, s, str) {
			if i > 0 {
				v = cat(v, cStr("/"))
			}

			e = c.St.norm(e)
			if t := asTerm(e); t != nil && t.Op == "clean" && i == 0 {
				e = t.Args[0]
			}

			v = cat(v, e)
		}

		return ret(c.St, clean(c.St, v)), true
	}

	wipe := func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, clean(c.St, c.St.norm(c.Args[0]))), true
	}

	in.Hooks["path/filepath.Join"], in.Hooks["path.Join"] = join, join
	in.Hooks["path/filepath.Clean"], in.Hooks["path.Clean"] = wipe, wipe
	in.Hooks["path.IsAbs"] = func(c *CallCtx) ([]Out, bool) {
		if s, ok := asStr(c.Args[0]); ok {
			return ret(c.St, cBool(filepath.IsAbs(s))), true
		}

		return ret(c.St, c.St.norm(T(types.Typ[types.Bool], "path/filepath.IsAbs.0", c.Args...))), true
	}
}

// cat concatenates texts.
func cat(vs ...Val) Val {
	var r Val = cStr("")

	for _, v := range vs {
		if s, ok := asStr(r); ok && s == "" {
			r = v

			continue
		}

		if s, ok := asStr(v); ok && s == "" {
			continue
		}

		r = concat(types.Typ[types.String], r, v)
	}

	return r
}

// under is the normal form of a path relative to a directory.
func under(dir, path Val) Val {
	v := cat(dir, cStr("/"), path)
	if s, ok := asStr(v); ok {
		return cStr(filepath.Clean(s))
	}

	return T(types.Typ[types.String], "clean", v)
}

// textOf is the text of a string or symbol cell.
func textOf(st *State, v Val) Val {
	v = st.norm(v)

	i, ok := v.(*Iface)
	if !ok {
		return v
	}

	root, path, ok := addr(i.V)
	if !ok {
		return v
	}

	return st.norm(st.loadAt(root, path, types.Typ[types.String]))
}

// strVal is a string cell with arbitrary text.
func (m *Machine) strVal(st *State, text Val) Val {
	v, _, err := m.call1(st, m.P.fn("internal/common/type/str", "New"), text)
	if err != nil {
		panic(budgetError{err.Error()})
	}

	return v
}

// internSyms makes sym.New an operation with one outcome: the symbol with
// that text. Whether it is shared is not observable by text.
func internSyms(m *Machine) {
	m.In.Hooks["internal/common/type/sym.New"] = func(c *CallCtx) ([]Out, bool) {
		tn := m.P.typ("internal/common/type/sym", "T")
		text := c.St.norm(c.Args[0])

		if s, ok := asStr(text); ok {
			return ret(c.St, m.sym(c.St, s)), true
		}

		o := &Obj{ID: "sym:" + text.Key(), T: tn, Base: true}
		c.St.storeAt(o, "", text, tn)

		return ret(c.St, &Iface{types.NewPointer(tn), P(o, "")}), true
	}
}

// symText checks what internSyms assumes: a symbol made from a text has it.
func symText(c *Check, m *Machine, rule string) {
	f := m.P.fn("internal/common/type/sym", "New")
	if f == nil {
		c.undecided(rule, "sym.New", "not found")

		return
	}

	c.guard(rule, "sym.New", func() {
		st := m.W.Init.clone()
		in := newInterp(m.P)
		x := T(types.Typ[types.String], "X")
		tn := m.P.typ("internal/common/type/sym", "T")

		for n, h := range m.In.Hooks {
			if strings.HasPrefix(n, "(*sync.") {
				in.Hooks[n] = h
			}
		}

		// Maps from text to symbol hold, under each text, the symbol with it:
		// nothing else may be stored in them.
		n := 0

		for _, o := range in.Call(st, f, []Val{x}, nil, 0, false) {
			if o.Kind != Ret {
				c.fail(rule, "sym.New", o.Pos, "%s: %s", o.Kind, o.Why)

				continue
			}

			n++
			v := o.St.norm(o.Val)
			i, ok := v.(*Iface)

			if ok {
				if t := asTerm(i.V); t != nil && t.Op == "mapval" && t.Args[1].Key() == x.Key() {
					c.pass(rule, "sym.New", "the symbol kept for that text")

					continue
				}
			}

			c.ob(rule, "sym.New", ok && types.Identical(deref(i.T), tn) && textOf(o.St, v).Key() == x.Key(), o.Pos, "a new symbol has text %s", show(textOf(o.St, v)))

			for _, mo := range o.St.maps {
				for k := range mo.Keys {
					if mo.Keys[k].Key() == x.Key() {
						mv := mo.Vals[k]
						if _, isI := mv.(*Iface); !isI {
							mv = &Iface{types.NewPointer(tn), mv}
						}

						c.ob(rule, "sym.New", textOf(o.St, mv).Key() == x.Key(), o.Pos, "the symbol kept for a text has text %s", show(textOf(o.St, mv)))
					}
				}
			}
		}

		c.atLeast(rule+" sym.New", n, 1)
		c.enter(in)
	})
}

// effects are the events of one kind on a path, by callee suffix.
func effects(st *State, suffix ...string) (es []*Ev) {
	for _, e := range st.events() {
		for _, s := range suffix {
			if strings.HasSuffix(e.Name, s) {
				es = append(es, e)

				break
			}
		}
	}

	return
}

func checkC08(c *Check) {
	m := mustMachine(c.P)
	pathHooks(m.In)
	internSyms(m)
	symText(c, m, "symbol-text")

	str := types.Typ[types.String]
	x := T(str, "X")

	look := func(st *State, n string) Val { return textOf(st, m.Vars[n]) }
	self := func(st *State) Val { return x }
	home := func(st *State) Val { return look(st, "HOME") }

	anyHome := m.Vars["HOME"]

	// The interpreter's LookPath finds a directory.
	dirFound := false
	m.In.Hooks["github.com/michaelmacinnis/adapted.LookPath"] = func(cc *CallCtx) ([]Out, bool) {
		if !dirFound {
			return nil, false
		}

		cc.St.event("lookpath", "LookPath", cc.From, cc.Pos, nil, cc.Args...)

		return ret(cc.St, Tuple{T(str, "FOUND"), cBool(false), Nil{}}), true
	}

	mk := func(names ...string) func(st *State) Val {
		f := L(names...)

		return func(st *State) Val { return f(m, st) }
	}

	forms := []struct {
		name string
		dir  bool
		mk   func(st *State) Val
		// want is the directory meant, before it is made absolute.
		want func(st *State) Val
		fork bool // the argument may turn out to be "-"
	}{
		{"cd with a string argument", false, func(st *State) Val { return m.list(st, m.sym(st, "cd"), m.strVal(st, x)) }, self, true},
		{"cd without arguments", false, func(st *State) Val { return m.list(st, m.sym(st, "cd")) }, home, true},
		{"cd sub", false, mk("'cd", "'sub"), func(*State) Val { return cStr("sub") }, false},
		{"cd ..", false, mk("'cd", "'.."), func(*State) Val { return cStr("..") }, false},
		{"cd /abs/dir", false, mk("'cd", "'/abs/dir"), func(*State) Val { return cStr("/abs/dir") }, false},
		{"cd -", false, mk("'cd", "'-"), func(st *State) Val { return look(st, "OLDPWD") }, false},
		{"cd ~", false, mk("'cd", "'~"), func(st *State) Val { return cStr("/home/u") }, false},
		{"cd ~/sub", false, mk("'cd", "'~/sub"), func(st *State) Val { return cStr("/home/u/sub") }, false},
		{"naming a directory as a command", true, func(st *State) Val { return m.list(st, m.strVal(st, x)) }, self, false},
		{"naming ~/sub as a command", true, mk("'~/sub"), func(st *State) Val { return cStr("/home/u/sub") }, false},
		{"naming .. as a command", true, mk("'.."), func(st *State) Val { return cStr("..") }, false},
		{"command with the name of a directory", true, func(st *State) Val { return m.list(st, m.sym(st, "command"), m.strVal(st, x)) }, self, false},
	}

	for i := range forms {
		f := forms[i]
		c.guard("cd", f.name, func() {
			st := m.W.Init.clone()
			dirFound = f.dir
			m.Vars["HOME"] = anyHome

			if strings.Contains(f.name, "~") {
				m.Vars["HOME"] = m.sym(st, "/home/u")
			}

			// Paths in play are absolute where the shell keeps them so.
			for _, n := range []string{"PWD", "OLDPWD"} {
				st.rep[T(types.Typ[types.Bool], "path/filepath.IsAbs.0", look(st, n)).key] = cBool(true)
			}

			res, _, err := m.Eval(st, f.mk(st))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			done, left := 0, 0

			for _, r := range res {
				c.Counts["evaluations"]++

				if r.Kind == Trunc {
					continue
				}

				ch := effects(r.St, "os.Chdir")
				ex := effects(r.St, "scope.I.Export", "scope.I.Define", "reference.I.Set")

				if r.Bad != "" {
					c.fail("cd", f.name, r.Pos, "%s", r.Bad)

					continue
				}

				if r.Kind == Panic {
					ok := len(ex) == 0

					for _, e := range ch {
						if e.Ret == nil || isNil(r.St.norm(e.Ret)) {
							ok = false
						}
					}

					ok = ok && len(ch) == 0
					c.ob("raise-changes-nothing", f.name, ok, r.Pos, "raising (%s) after %d directory changes and %d assignments; must be none", r.Why, len(ch), len(ex))

					continue
				}

				if len(ch) != 1 {
					c.fail("one-change", f.name, r.Pos, "%d directory changes; must be one", len(ch))

					continue
				}

				// Which directory is meant, given what the path assumed.
				want := f.want(r.St)
				want = r.St.norm(want)

				if f.fork {
					if b, ok := asBool(r.St.eq(want, cStr("-"))); ok && b {
						want = r.St.norm(look(r.St, "OLDPWD"))
					} else if !ok {
						c.undecided("target", f.name, "the analysis does not tell whether the argument is -")

						continue
					}
				}

				got := r.St.norm(ch[0].Args[0])
				pwd := r.St.norm(look(r.St, "PWD"))

				abs := false
				if s, ok := asStr(want); ok {
					abs = strings.HasPrefix(s, "/")
				} else if b, ok := asBool(r.St.norm(T(types.Typ[types.Bool], "path/filepath.IsAbs.0", want))); ok {
					abs = b
				} else {
					c.undecided("target", f.name, "the analysis does not tell whether %s is absolute", show(want))

					continue
				}

				full := under(pwd, want)
				if abs {
					full = want
				}

				same := got.Key() == full.Key()
				if abs && !same {
					if t := asTerm(got); t != nil && t.Op == "clean" {
						same = t.Args[0].Key() == want.Key()
					}
				}

				c.ob("target", f.name, same, ch[0].Pos, "changes to %s; must be %s", show(got), show(full))

				errv := r.St.norm(ch[0].Ret)

				failed := true
				if b, ok := asBool(r.St.eq(Nil{}, errv)); ok {
					failed = !b
				} else {
					c.fail("outcome", f.name, ch[0].Pos, "the result of the directory change is not looked at")

					continue
				}

				if failed {
					left++

					c.ob("failure-changes-nothing", f.name, len(ex) == 0, r.Pos, "after a failed change %d variables are assigned", len(ex))
					c.ob("result", f.name, r.Result != nil && r.Result.Key() == m.null(r.St).Key(), r.Pos, "a failed change yields %s; must be ()", show(r.Result))

					continue
				}

				done++

				final := map[string]Val{}
				ok := true

				for _, e := range ex {
					k, isC := asStr(e.Args[1])
					if !isC || !strings.HasSuffix(e.Name, "scope.I.Export") || (k != "PWD" && k != "OLDPWD") {
						c.fail("assigns", f.name, e.Pos, "%s of %s", e.Name, show(e.Args[1]))

						ok = false

						continue
					}

					if e.Args[0].Key() != "nonnil(SCOPE)" {
						c.fail("assigns", f.name, e.Pos, "%s is exported in %s; must be in the current scope", k, show(e.Args[0]))

						ok = false
					}

					final[k] = textOf(r.St, e.Args[2])
				}

				if ok {
					np, op := final["PWD"], final["OLDPWD"]
					c.ob("assigns", f.name, np != nil && np.Key() == got.Key(), r.Pos, "PWD becomes %s; must be the directory changed to, %s", showNil(np), show(got))
					c.ob("assigns", f.name, op != nil && op.Key() == pwd.Key(), r.Pos, "OLDPWD becomes %s; must be the previous PWD, %s", showNil(op), show(pwd))
				}

				c.ob("result", f.name, r.Result != nil && isTrue(m, r.St, r.Result), r.Pos, "a successful change yields %s; must be true", show(r.Result))
			}

			c.ob("outcomes", f.name, done > 0 && left > 0, token.NoPos, "%d successful and %d failed ways", done, left)
		})
	}

	c.enter(m.In)
	boundDirectory(c, m)
	onlyHere(c, m)
}

func showNil(v Val) string {
	if v == nil {
		return "nothing"
	}

	return show(v)
}

// isTrue reports whether v is a symbol with the text true.
func isTrue(m *Machine, st *State, v Val) bool {
	s, ok := asStr(textOf(st, v))

	return ok && s == "true"
}

// onlyHere requires every use of chdir, and every assignment to PWD or
// OLDPWD, to lie in the functions just analysed or in the start-up code.
func onlyHere(c *Check, m *Machine) {
	n := 0

	for _, f := range c.P.Src {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}

				cc := call.Common()

				if g := cc.StaticCallee(); g != nil {
					switch g.String() {
					case "os.Chdir", "syscall.Chdir", "syscall.Fchdir", "golang.org/x/sys/unix.Chdir", "golang.org/x/sys/unix.Fchdir", "(*os.File).Chdir":
						n++

						c.ob("only-here", c.P.fname(f), m.In.Fns[f] && g.String() == "os.Chdir", i.Pos(), "%s is called in a function that changing directory does not reach", g)
					}

					continue
				}

				if !cc.IsInvoke() || len(cc.Args) < 1 {
					continue
				}

				switch cc.Method.Name() {
				case "Export", "Define", "Set":
					k, ok := cc.Args[0].(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}

					if s := constant.StringVal(k.Value); s == "PWD" || s == "OLDPWD" {
						n++

						c.ob("only-here", c.P.fname(f), c.Fns[c.P.fname(f)], i.Pos(), "%s is assigned in a function that neither changing directory nor starting reaches", s)
					}
				}
			}
		}
	}

	c.atLeast("only-here", n, 1)
}

// boundDirectory checks that the shell starts with PWD and OLDPWD naming the
// directory it was started in.
func boundDirectory(c *Check, m *Machine) {
	f := c.P.fn("internal/engine", "Boot")
	if f == nil {
		c.undecided("start", "engine.Boot", "not found")

		return
	}

	c.guard("start", "engine.Boot", func() {
		in := newInterp(c.P)
		in.MaxVisit = 2
		internIn(in, m)

		cwd := T(types.Typ[types.String], "CWD")
		in.Hooks["os.Getwd"] = func(cc *CallCtx) ([]Out, bool) {
			st2 := cc.St.clone()
			e := T(types.Universe.Lookup("error").Type(), "getwd-error")
			nonNil(st2, e)
			cc.St.event("call", "os.Getwd", cc.From, cc.Pos, nil)
			st2.User["no directory"] = cBool(true)

			return []Out{{St: cc.St, Kind: Ret, Val: Tuple{cwd, Nil{}}}, {St: st2, Kind: Ret, Val: Tuple{cStr(""), e}}}, true
		}

		env := T(types.Typ[types.String], "the environment's PWD")
		in.Hooks["os.Getenv"] = func(cc *CallCtx) ([]Out, bool) {
			if k, ok := asStr(cc.Args[0]); ok && k == "PWD" {
				return ret(cc.St, env), true
			}

			return nil, false
		}

		// The boot script is another subject; what Boot does besides is not.
		for _, p := range []string{"internal/reader.New", "(*internal/reader.T).Scan", "(*internal/reader.T).Next", "internal/system/job.Monitor", "internal/system/job.Job", "internal/engine.System", "internal/engine/boot.Script", "internal/common/type/sym.Cache", "internal/common/type/list.New", "strings.SplitAfter"} {
			in.Hooks[p] = func(cc *CallCtx) ([]Out, bool) { return cc.effect("call", cc.Name), true }
		}

		st := m.W.Init.clone()
		n := 0

		scopeT := c.P.typ("internal/common/interface/scope", "I")

		for _, g := range globalsOf(c.P, "internal/engine") {
			if t := deref(g.Type()); types.Identical(t, scopeT) {
				st.store(in.globalPtr(g), T(scopeT, "nonnil", T(scopeT, "global:"+g.Name())), scopeT)
			}
		}

		for _, o := range in.Call(st, f, []Val{T(types.Typ[types.String], "path"), T(f.Params[1].Type(), "arguments")}, nil, 0, false) {
			if o.Kind != Ret {
				continue
			}

			n++
			final := map[string]Val{}

			for _, e := range effects(o.St, "scope.I.Export", "scope.I.Define") {
				if k, ok := asStr(e.Args[1]); ok && strings.HasSuffix(e.Name, "Export") {
					final[k] = textOf(o.St, e.Args[2])
				} else if ok && (k == "PWD" || k == "OLDPWD") {
					c.fail("start", "engine.Boot", e.Pos, "%s is not exported", k)
				}
			}

			for _, k := range []string{"PWD", "OLDPWD"} {
				v := final[k]

				if o.St.User["no directory"] != nil {
					// The system has no name for it; what the shell was told is all there is.
					c.ob("start", "engine.Boot", v == nil || v.Key() == env.Key(), o.Pos, "%s starts as %s although the directory has no name", k, showNil(v))

					continue
				}

				c.ob("start", "engine.Boot", v != nil && v.Key() == cwd.Key(), o.Pos, "%s starts as %s; must be the directory the process is in", k, showNil(v))
			}
		}

		c.atLeast("start", n, 1)
		c.enter(in)
	})
}

func internIn(in *Interp, m *Machine) {
	n := &Machine{P: m.P, In: in}
	internSyms(n)
}

func checkC09(c *Check) {
	c.statusCodes()
	c.commandValue()
	c.exitMarks()
	c.shellExit()
}

// statusCodes evaluates the job service for every way a process can end.
func (c *Check) statusCodes() {
	j := newJobs(c)

	one := func(name string, kind, n, want int) {
		j.explore("status", name, func(q *seq) {
			_, main, _ := j.session(q)
			err := j.execute(q, main, 100)
			q.ok(isNil(err) && j.waiting(q, main), "a task whose process was started waits")
			q.child(report(100, kind, n))
			j.serve(q, "SIGCHLD")

			v := j.value(q, main)
			q.ok(!j.waiting(q, main) && j.statusIs(v, want), "the status is %s (must be %d)", show(v), want)
		})
	}

	for n := 0; n < 256; n++ {
		one(fmt.Sprintf("a process exits with %d", n), wExited, n, n)
	}

	for n := 1; n <= 64; n++ {
		one(fmt.Sprintf("a process is killed by signal %d", n), wSignaled, n, 128+n)
		one(fmt.Sprintf("a process dumps core on signal %d", n), wSignaled, n|0x80, 128+n)
	}

	c.enter(j.in)
}

// commandValue checks that an external command's value is what the job
// service reported for it.
func (c *Check) commandValue() {
	m := mustMachine(c.P)

	for _, s := range []struct {
		name string
		mk   func(m *Machine, st *State) Val
	}{
		{"(prog)", L("\"prog")},
		{"(prog a b)", L("\"prog", "\"a", "\"b")},
		{"(command prog a)", L("'command", "\"prog", "\"a")},
		{"(prog A)", L("\"prog", "A")},
	} {
		c.guard("command-value", s.name, func() {
			st := m.W.Init.clone()

			res, _, err := m.Eval(st, s.mk(m, st))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, r := range res {
				ex := effects(r.St, "Execute")
				if len(ex) == 0 || r.Kind == Trunc {
					continue
				}

				n++

				c.ob("command-value", s.name, r.Kind == Ret && r.Bad == "" && r.Result != nil && r.Result.Key() == "STATUS", r.Pos, "after running the command: %s %s giving %s; must give the status reported for it", r.Kind, r.Bad, showNil(r.Result))
				c.ob("run-once", s.name, len(ex) == 1, r.Pos, "the command is run %d times", len(ex))
			}

			c.atLeast("command-value", n, 1)
		})
	}

	c.enter(m.In)
}

// exitMarks checks exit and fatal, with every number of arguments.
func (c *Check) exitMarks() {
	m := mustMachine(c.P)

	for _, s := range []struct {
		name, result string
		args         []string
	}{
		{"exit", "", nil}, {"exit", "val:A.1", []string{"A"}}, {"exit", "!", []string{"A", "B"}}, {"exit", "!", []string{"A", "B", "A"}},
		{"fatal", "", nil}, {"fatal", "val:A.1", []string{"A"}}, {"fatal", "!", []string{"A", "B"}},
		{"wait", "-", nil}, {"block", "-", []string{"A"}}, {"cd", "-", []string{"\"x"}}, {"throw", "-", []string{"A"}},
	} {
		on := fmt.Sprintf("(%s) with %d arguments", s.name, len(s.args))

		c.guard("exit", on, func() {
			st := m.W.Init.clone()
			code := L(append([]string{"'" + s.name}, s.args...)...)(m, st)

			t, _, err := m.Begin(st, code)
			if err != nil {
				panic(budgetError{err.Error()})
			}

			actT := m.P.typ("internal/engine/task", "Action")

			op, _, err := m.call1(st, m.meth("PushOp"), t, &Iface{actT, &Fn{F: m.evalCmd}})
			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, r := range m.drive(t, mItem{st: st, op: op}) {
				if r.Kind == Trunc {
					continue
				}

				n++

				v, _, err := m.call1(r.St, m.meth("Exited"), t)
				if err != nil {
					panic(budgetError{err.Error()})
				}

				exited, known := asBool(r.St.norm(v))

				if s.result == "-" {
					c.ob("exit", on, known && !exited, r.Pos, "the task is marked as exited: %s", show(v))

					continue
				}

				if s.result == "!" {
					c.ob("exit", on, r.Kind == Panic && known && !exited, r.Pos, "%s, exited %s; must raise an error and leave the task unmarked", r.Kind, show(v))

					continue
				}

				c.ob("exit", on, r.Kind == Stop && r.Why == "task completed", r.Pos, "%s (%s); must complete the task", r.Kind, r.Why)

				ok := r.Result != nil && (s.result == "" && isTrue(m, r.St, r.Result) || r.Result.Key() == s.result)
				c.ob("exit", on, ok, r.Pos, "the task's result is %s", showNil(r.Result))
				c.ob("exit", on, known && exited == (s.name == "exit"), r.Pos, "exited is %s", show(v))
			}

			c.atLeast("exit "+on, n, 1)
		})
	}

	// Nothing but exit marks a task: the method is reached from nowhere else.
	set := m.meth("Exit")
	n := 0

	for _, f := range c.P.Src {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && set != nil && g.Name() == set.Name() && g.Pkg == nil || g != nil && g.Name() == "Exit" && fnPkg(g) == m.tT.(*types.Pointer).Elem().(*types.Named).Obj().Pkg() {
						n++

						c.ob("exit-only", c.P.fname(f), m.In.Fns[f], i.Pos(), "marks a task as exited, and evaluating exit does not reach it")
					}
				}
			}
		}
	}

	c.atLeast("exit-only", n, 1)
	c.enter(m.In)
}

// shellExit checks the engine's top-level evaluation.
func (c *Check) shellExit() {
	f := c.P.fn("internal/engine", "Evaluate")
	if f == nil {
		c.undecided("shell-exit", "engine.Evaluate", "not found")

		return
	}

	w := world(c.P, "internal/engine")

	m, err := newMachine(&World{P: c.P, Init: w.Init.clone()})
	if err != nil {
		c.undecided("shell-exit", "engine.Evaluate", "%s", err)

		return
	}

	in := m.In
	in.MaxVisit = 3

	for _, n := range []string{"invoke internal/common/interface/scope.I.Lookup", "invoke internal/common/interface/reference.I.Get"} {
		delete(in.Hooks, n)
	}

	R := T(m.cell, "RESULT")
	intT := types.Typ[types.Int64]

	in.Hooks["internal/common/interface/integer.Value"] = func(cc *CallCtx) ([]Out, bool) {
		st2 := cc.St.clone()
		cc.St.User["int"] = cBool(true)
		st2.User["int"] = cBool(false)

		return []Out{{St: cc.St, Kind: Ret, Val: T(intT, "int", cc.Args[0])}, {St: st2, Kind: Panic, Val: T(nil, "not-an-integer"), Pos: cc.Pos, Why: "not an integer"}}, true
	}

	in.Hooks[kBoolean] = func(cc *CallCtx) ([]Out, bool) {
		t := T(types.Typ[types.Bool], "truth", cc.Args[0])
		if _, ok := asBool(cc.St.norm(t)); ok {
			return ret(cc.St, cc.St.norm(t)), true
		}

		st2 := cc.St.clone()
		cc.St.assume(t, true)
		st2.assume(t, false)

		return []Out{{St: cc.St, Kind: Ret, Val: cBool(true)}, {St: st2, Kind: Ret, Val: cBool(false)}}, true
	}

	spawn := jobSpawn(c.P)
	if spawn == "" {
		c.undecided("shell-exit", "engine.Evaluate", "the job type has no method Spawn")

		return
	}

	// Spawning sets the task going; it completes while the shell waits.
	in.Hooks[spawn] = func(cc *CallCtx) ([]Out, bool) {
		cc.St.User["task"], cc.St.User["told"] = cc.Args[2], cc.Args[3]
		cc.St.event("spawn", "Spawn", cc.From, cc.Pos, nil, cc.Args...)

		return ret(cc.St, Tuple{}), true
	}

	stop := func(cc *CallCtx, why string) ([]Out, bool) {
		return []Out{{St: cc.St, Kind: Stop, Pos: cc.Pos, Why: why, Val: Nil{}}}, true
	}

	in.Chan = func(cc *CallCtx, op string, ch, v Val) ([]Out, bool) {
		switch op {
		case "close", "send":
			cc.St.User["ready:"+ch.Key()] = cBool(true)

			return ret(cc.St, Tuple{}), true
		case "recv":
			t, told := cc.St.User["task"], cc.St.User["told"]
			if t == nil {
				return stop(cc, "waits without having spawned a task")
			}

			if cc.St.User["over"] != nil {
				return ret(cc.St, Tuple{Nil{}, cBool(false)}), true
			}

			cc.St.User["over"] = cBool(true)

			var outs []Out

			for _, exited := range []bool{false, true} {
				st := cc.St.clone()
				nonNil(st, R)

				if _, _, err := m.call1(st, m.meth("PushResult"), t, R); err != nil {
					panic(budgetError{err.Error()})
				}

				if exited {
					if _, _, err := m.call1(st, m.meth("Exit"), t); err != nil {
						panic(budgetError{err.Error()})
					}
				}

				st.User["exited"] = cBool(exited)

				fn, ok := told.(*Fn)
				if !ok {
					return stop(cc, "nobody is told when the task has completed")
				}

				for _, o := range in.Call(st, fn.F, nil, fn.B, cc.Depth+1, false) {
					if o.Kind == Ret {
						if o.St.User["ready:"+ch.Key()] == nil {
							o.Kind, o.Why = Stop, "waits on a channel that nobody closes"
						}

						o.Val = Tuple{Nil{}, cBool(false)}
					}

					outs = append(outs, o)
				}
			}

			return outs, true
		}

		return nil, false
	}

	c.guard("shell-exit", "engine.Evaluate", func() {
		st := m.W.Init.clone()
		seen := map[string]bool{}

		for _, o := range in.Call(st, f, []Val{T(f.Params[0].Type(), "nonnil", T(f.Params[0].Type(), "JOB")), T(m.cell, "COMMAND")}, nil, 0, false) {
			if o.Kind == Trunc {
				continue
			}

			exited, ok := asBool(valOr(o.St.User["exited"]))
			if !ok {
				c.fail("shell-exit", "engine.Evaluate", o.Pos, "%s (%s) before the task has completed", o.Kind, o.Why)

				continue
			}

			ex := effects(o.St, "os.Exit")

			if !exited {
				seen["stays"] = true

				c.ob("stays", "engine.Evaluate", o.Kind == Ret && len(ex) == 0 && o.Val != nil && o.St.norm(o.Val).Key() == R.Key(), o.Pos, "a task that did not exit: %s (%s) giving %s; must return the task's result", o.Kind, o.Why, showNil(o.Val))

				if o.Kind == Ret {
					v := c.variable(m, o.St, "?")
					c.ob("last-result", "engine.Evaluate", v != nil && v.Key() == R.Key(), o.Pos, "$? is %s; must be the command's result", showNil(v))
				}

				continue
			}

			if o.Kind != Stop || len(ex) != 1 {
				c.fail("shell-exit", "engine.Evaluate", o.Pos, "a task that exited: %s (%s); must end the process", o.Kind, o.Why)

				continue
			}

			code := o.St.norm(ex[0].Args[0])
			isInt, known := asBool(valOr(o.St.User["int"]))
			truth, judged := asBool(o.St.norm(T(types.Typ[types.Bool], "truth", R)))

			switch {
			case known && isInt:
				seen["int"] = true

				for {
					t := asTerm(code)
					if t == nil || !strings.HasPrefix(t.Op, "conv") {
						break
					}

					code = t.Args[0]
				}

				c.ob("shell-exit", "engine.Evaluate", code.Key() == T(intT, "int", R).Key(), ex[0].Pos, "exits with %s; must be the integer that is the result", show(code))
			case known && judged:
				seen[fmt.Sprint(truth)] = true
				n, isC := asInt(code)
				c.ob("shell-exit", "engine.Evaluate", isC && (n == 0) == truth && (truth || n > 0 && n < 256), ex[0].Pos, "exits with %s for a result that is no integer and %v", show(code), truth)
			default:
				c.fail("shell-exit", "engine.Evaluate", ex[0].Pos, "exits with %s without looking at the result", show(code))
			}
		}

		for _, k := range []string{"stays", "int", "true", "false"} {
			c.ob("outcomes", "engine.Evaluate: "+k, seen[k], token.NoPos, "must be possible")
		}
	})

	// What the shell runs for itself (the prompt, completions, its own boot
	// script) leaves $? alone and does not end it.
	c.guard("system", "engine.System", func() {
		g := c.P.fn("internal/engine", "System")
		if g == nil {
			panic(budgetError{"engine.System not found"})
		}

		st := m.W.Init.clone()
		before := showNil(c.variable(m, st, "?"))
		n := 0

		for _, o := range in.Call(st, g, []Val{T(g.Params[0].Type(), "nonnil", T(g.Params[0].Type(), "JOB")), T(m.cell, "COMMAND")}, nil, 0, false) {
			if o.Kind == Trunc {
				continue
			}

			n++

			exited, ok := asBool(valOr(o.St.User["exited"]))
			tu, isTuple := valOr(o.Val).(Tuple)
			c.ob("system", "engine.System", ok && o.Kind == Ret && isTuple && len(tu) == 2 && o.St.norm(tu[0]).Key() == R.Key() && o.St.norm(tu[1]).Key() == cBool(exited).Key(), o.Pos, "%s (%s) giving %s for a task that exited: %v; must give its result and whether it exited", o.Kind, o.Why, showNil(o.Val), exited)

			if o.Kind == Ret {
				after := showNil(c.variable(m, o.St, "?"))
				c.ob("system-result", "engine.System", after == before, g.Pos(), "$? becomes %s; only a command of the user's sets it", after)
			}
		}

		c.atLeast("system", n, 2)
	})

	// The shell ends nowhere else, except to report a failure.
	n := 0

	for _, g := range c.P.Src {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}

				h := call.Common().StaticCallee()
				if h == nil || h.String() != "os.Exit" && h.String() != "syscall.Exit" && h.String() != "runtime.Goexit" && !strings.HasPrefix(h.String(), "log.Fatal") {
					continue
				}

				n++

				if in.Fns[g] {
					c.pass("other-exits", c.P.fname(g), "the shell's exit")

					continue
				}

				k, isC := ssa.Value(nil), false
				if len(call.Common().Args) == 1 {
					k = call.Common().Args[0]
				}

				if kc, ok := k.(*ssa.Const); ok && kc.Value != nil {
					v, _ := constant.Int64Val(kc.Value)
					isC = v > 0 && v < 256
				}

				c.ob("other-exits", c.P.fname(g), isC && h.String() == "os.Exit", i.Pos(), "%s ends the process other than with a failure", h)
			}
		}
	}

	c.atLeast("other-exits", n, 1)
	c.enter(in)
}

// jobSpawn is the name of the method by which the engine sets a task going.
func jobSpawn(p *Program) string {
	f := p.fn("internal/engine", "Evaluate")
	if f == nil || len(f.Params) == 0 {
		return ""
	}

	g := p.SSA.LookupMethod(f.Params[0].Type(), nil, "Spawn")
	if g == nil {
		return ""
	}

	return p.fname(g)
}

// variable is the value of a variable in the engine's base frame.
func (c *Check) variable(m *Machine, st *State, name string) Val {
	ft := types.NewPointer(c.P.typ("internal/common/struct/frame", "T"))

	for _, g := range globalsOf(c.P, "internal/engine") {
		if !types.Identical(deref(g.Type()), ft) {
			continue
		}

		s := st.clone()
		fr := s.load(m.In.globalPtr(g), ft)

		v, s, err := m.call1(s, m.P.SSA.LookupMethod(ft, nil, "Resolve"), fr, cStr(name))
		if err != nil {
			return nil
		}

		tu, ok := s.norm(v).(Tuple)
		if !ok || len(tu) != 2 {
			return nil
		}

		r, ok := s.norm(tu[1]).(*Iface)
		if !ok {
			return nil
		}

		v, s, err = m.call1(s, m.P.SSA.LookupMethod(r.T, nil, "Get"), r.V)
		if err != nil {
			return nil
		}

		return s.norm(v)
	}

	return nil
}
