package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C23"] = rule{
		explain: "The interactive session is evaluated abstractly from where it begins, for every sequence of a bounded length of what the line editor can return (an empty line, text that is incomplete, wrong, one command or two, an interrupt, the end of the input, a prompt it refuses, a failure), of commands that exit, and of a terminal that refuses a change of its mode. Along each the terminal's mode, the readers, the jobs and the history are followed by a reference automaton.",
		assume:  []string{"the line editor behaves as documented: it leaves the terminal in its own mode, and Prompt returns one line without its end", "what completion evaluates while a line is edited is not followed"},
		run:     checkC23,
	}
}

type tty struct {
	c     *Check
	p     *Program
	in    *Interp
	st0   *State
	top   *ssa.Function
	cell  types.Type
	depth int
	fail  int // the change of mode that is refused, if not 0
	mode  types.Type
	err   types.Type
	on    string
	load  string // what becomes of loading the history
}

const linerPkg = "github.com/peterh/liner"

func checkC23(c *Check) {
	depth := 4
	if c.Tier == "thorough" {
		depth = 5
	}

	for n := 0; n <= 4; n++ {
		c.session("session", depth, n, "ok")

		depth = min(depth, 3)
	}

	c.session("session", 2, 0, "error")
	c.historyFile()
}

// sessionStart finds where an interactive session begins: the outermost
// function but main that leads to a new line editor.
func (c *Check) sessionStart() *ssa.Function {
	g := c.P.graph()

	var f *ssa.Function

	for _, h := range c.P.Src {
		instrs(h, func(i ssa.Instruction) {
			if ci, ok := i.(ssa.CallInstruction); ok {
				for _, t := range g.callees(ci) {
					if c.P.fname(t) == linerPkg+".NewLiner" {
						f = h
					}
				}
			}
		})
	}

	for n := 0; f != nil && n < 10; n++ {
		var up *ssa.Function

		for _, ci := range g.callers(f) {
			if c.P.inModule(ci.Parent()) && ci.Parent().Name() != "main" {
				up = ci.Parent()
			}
		}

		if up == nil {
			break
		}

		f = up
	}

	return f
}

func (c *Check) session(rule string, depth, fail int, load string) {
	on := fmt.Sprintf("sessions of %d lines", depth)
	if fail > 0 {
		on += fmt.Sprintf(", change %d of the terminal's mode refused", fail)
	}

	if load != "ok" {
		on += ", no history"
	}

	c.guard(rule, on, func() {
		s := newSim(c, "")
		t := &tty{c: c, p: c.P, in: s.in, st0: s.st0, depth: depth, fail: fail, on: on, load: load}
		t.cell = c.P.typ("internal/common/interface/cell", "I")
		t.err = types.Universe.Lookup("error").Type()
		t.in.MaxVisit = depth*4 + 12
		t.in.MaxSteps, t.in.MaxOuts = 200000000, 2000000

		t.top = c.sessionStart()
		if t.top == nil {
			panic(budgetError{"no interactive session found"})
		}

		t.hooks()

		n := 0

		for _, o := range t.in.Call(t.st0.clone(), t.top, nil, nil, 0, false) {
			if o.Kind == Trunc {
				panic(budgetError{"a session is not followed to its end: " + o.Why})
			}

			n++
			t.judge(o)
		}

		least := 1
		if fail == 0 {
			least = 20
		}

		c.atLeast(rule+" "+on, n, least)
		c.Counts["sessions"] += n
		c.enter(t.in)
	})
}

// global gives a package's error variable a value of its own.
func (t *tty) global(pkg, name string) Val {
	for _, q := range t.p.SSA.AllPackages() {
		if q.Pkg.Path() == pkg {
			if g := q.Var(name); g != nil {
				v := t.failure(name)
				t.st0.storeAt(t.in.globalPtr(g).(*Ptr).Root, "", v, t.err)

				return v
			}
		}
	}

	panic(budgetError{pkg + "." + name + " not found"})
}

func (t *tty) failure(name string) Val {
	et := t.p.extType("errors", "errorString")
	if et == nil {
		panic(budgetError{"errors.errorString is not loaded"})
	}

	return &Iface{types.NewPointer(et), P(&Obj{ID: "error:" + name, T: et}, "")}
}

func (t *tty) log(cc *CallCtx, kind string, args ...Val) {
	cc.St.event("tty", kind, cc.From, cc.Pos, nil, args...)
}

func userInt(st *State, k string) int {
	n, _ := asInt(valOr(st.User[k]))

	return int(n)
}

func (t *tty) method(rel, typ, name string) string {
	pt := types.NewPointer(t.p.typ(rel, typ))

	f := t.p.SSA.LookupMethod(pt, nil, name)
	if f == nil {
		panic(budgetError{typ + " has no method " + name})
	}

	return t.p.fname(f)
}

func (t *tty) hooks() {
	in := t.in
	str := types.Typ[types.String]
	rv := func(st *State, v Val) ([]Out, bool) { return ret(st, v), true }

	aborted := t.global(linerPkg, "ErrPromptAborted")
	invalid := t.global(linerPkg, "ErrInvalidPrompt")
	eof := t.global("io", "EOF")
	failure := t.failure("failure")

	in.Hooks["(*errors.errorString).Error"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, cStr("why")) }

	in.Hooks["errors.Is"] = func(cc *CallCtx) ([]Out, bool) {
		a, b := cc.St.norm(cc.Args[0]), cc.St.norm(cc.Args[1])

		return rv(cc.St, cBool(a.Key() == b.Key()))
	}
	in.Hooks["internal/system/options.Interactive"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, cBool(true)) }
	in.Hooks["internal/system/options.Args"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, texts2(cc.St, "oh")) }
	in.Hooks["internal/engine.Resolve"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, cStr("/bin")) }
	in.Hooks["internal/system/cache.Populate"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, Tuple{}) }
	in.Hooks["internal/system/process.BecomeForegroundGroup"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, Nil{}) }
	in.Hooks["internal/system/process.RestoreForegroundGroup"] = func(cc *CallCtx) ([]Out, bool) {
		t.log(cc, "restore")

		return rv(cc.St, Tuple{})
	}

	// The terminal.
	mt := t.p.extType(linerPkg, "ModeApplier")
	lt := t.p.extType(linerPkg, "State")

	if mt == nil || lt == nil {
		panic(budgetError{"the line editor is not loaded"})
	}

	mode := func(st *State) string {
		s, ok := asStr(valOr(st.User["mode"]))
		if !ok {
			return "found"
		}

		return s
	}

	t.mode = mt
	modes := map[string]string{}

	in.Hooks[linerPkg+".TerminalMode"] = func(cc *CallCtx) ([]Out, bool) {
		v := T(mt, "mode:"+mode(cc.St))
		modes[v.Key()] = mode(cc.St)
		nonNil(cc.St, v)

		return rv(cc.St, Tuple{v, Nil{}})
	}
	in.Hooks["invoke "+linerPkg+".ModeApplier.ApplyMode"] = func(cc *CallCtx) ([]Out, bool) {
		v := cc.St.norm(cc.Args[0])
		n := userInt(cc.St, "changes") + 1
		cc.St.User["changes"] = cInt(int64(n))

		m, ok := modes[v.Key()]
		if !ok {
			panic(budgetError{"an unknown mode is applied: " + show(v)})
		}

		if n == t.fail {
			t.log(cc, "refused", cStr(m))

			return rv(cc.St, failure)
		}

		cc.St.User["mode"] = cStr(m)
		t.log(cc, "mode", cStr(m))

		return rv(cc.St, Nil{})
	}

	cli := func(st *State) Val {
		v := T(types.NewPointer(lt), "CLI")
		nonNil(st, v)

		return v
	}
	in.Hooks[linerPkg+".NewLiner"] = func(cc *CallCtx) ([]Out, bool) {
		cc.St.User["mode"] = cStr("editor")
		t.log(cc, "editor")

		return rv(cc.St, cli(cc.St))
	}

	lp := types.NewPointer(lt)
	ms := t.p.SSA.MethodSets.MethodSet(lp)

	for i := 0; i < ms.Len(); i++ {
		f := t.p.SSA.MethodValue(ms.At(i))
		if f == nil {
			continue
		}

		in.Hooks[t.p.fname(f)] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, cc.freshRes(f.Name())) }

		switch f.Name() {
		case "Close":
			in.Hooks[t.p.fname(f)] = func(cc *CallCtx) ([]Out, bool) {
				cc.St.User["mode"] = cStr("found")
				t.log(cc, "mode", cStr("found"))

				return rv(cc.St, Nil{})
			}
		case "AppendHistory":
			in.Hooks[t.p.fname(f)] = func(cc *CallCtx) ([]Out, bool) {
				t.log(cc, "remember", cc.St.norm(cc.Args[1]))

				return rv(cc.St, Tuple{})
			}
		case "Prompt":
			in.Hooks[t.p.fname(f)] = func(cc *CallCtx) ([]Out, bool) {
				n := userInt(cc.St, "prompts") + 1
				cc.St.User["prompts"] = cInt(int64(n))
				text := cc.St.norm(cc.Args[1])
				t.log(cc, "ask", text, cStr(mode(cc.St)))

				var outs []Out

				give := func(what string, line Val, err Val) {
					st := cc.St.clone()
					st.event("tty", "line", cc.From, cc.Pos, nil, cStr(what), line)

					if what == "text" {
						st.User["lines"] = Tuple(append(append(Tuple{}, tupleOf(st.User["lines"])...), line))
					}

					outs = append(outs, Out{St: st, Kind: Ret, Val: Tuple{line, err}})
				}

				give("eof", cStr(""), eof)

				if n > t.depth {
					return outs, true
				}

				give("text", cStr(fmt.Sprint("line", n)), Nil{})
				give("empty", cStr(""), Nil{})
				give("abort", cStr(""), aborted)
				give("failure", cStr(""), failure)

				if _, given := asStr(text); !given {
					give("refused", cStr(""), invalid)
				}

				return outs, true
			}
		}
	}

	// The history.
	in.Hooks["internal/system/history.Load"] = func(cc *CallCtx) ([]Out, bool) {
		t.log(cc, "load", cStr(target(cc.St.norm(cc.Args[0]))))

		if t.load == "error" {
			return rv(cc.St, failure)
		}

		return rv(cc.St, Nil{})
	}
	in.Hooks["internal/system/history.Save"] = func(cc *CallCtx) ([]Out, bool) {
		t.log(cc, "save", cStr(target(cc.St.norm(cc.Args[0]))))

		if t.load == "error" {
			return rv(cc.St, failure)
		}

		return rv(cc.St, Nil{})
	}
	in.Hooks["(*os.File).Write"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, cc.freshRes("written")) }

	// Jobs and readers.
	made := func(kind string) Hook {
		return func(cc *CallCtx) ([]Out, bool) {
			v := cc.freshRes(kind)
			nonNil(cc.St, v)
			t.log(cc, kind, v)

			return rv(cc.St, v)
		}
	}

	in.Hooks["internal/system/job.New"] = made("job")
	in.Hooks["internal/reader.New"] = made("reader")
	in.Hooks[t.method(relJob, "T", "Append")] = func(cc *CallCtx) ([]Out, bool) {
		t.log(cc, "append", cc.St.norm(cc.Args[0]), cc.St.norm(cc.Args[1]))

		return rv(cc.St, Tuple{})
	}
	in.Hooks[t.method("internal/reader", "T", "Close")] = func(cc *CallCtx) ([]Out, bool) {
		t.log(cc, "close", cc.St.norm(cc.Args[0]))

		return rv(cc.St, Tuple{})
	}
	in.Hooks[t.method("internal/reader", "T", "Scan")] = func(cc *CallCtx) ([]Out, bool) {
		r, line := cc.St.norm(cc.Args[0]), cc.St.norm(cc.Args[1])
		n := userInt(cc.St, "scans") + 1
		cc.St.User["scans"] = cInt(int64(n))

		var outs []Out

		for _, what := range []string{"incomplete", "wrong", "one", "two"} {
			if s, ok := asStr(line); ok && s == "\n" && what != "incomplete" && what != "one" {
				continue
			}

			st := cc.St.clone()
			st.event("tty", "scan", cc.From, cc.Pos, nil, r, line, cStr(what))

			var c, err Val = Nil{}, Nil{}

			st.User["left"] = cInt(0)
			st.User["by"] = r

			switch what {
			case "wrong":
				e := T(t.err, "syntax-error")
				nonNil(st, e)
				err = e
			case "one", "two":
				c = t.command(st, n, 1)

				if what == "two" {
					st.User["left"] = cInt(1)
				}
			}

			outs = append(outs, Out{St: st, Kind: Ret, Val: Tuple{c, err}})
		}

		return outs, true
	}
	in.Hooks[t.method("internal/reader", "T", "Next")] = func(cc *CallCtx) ([]Out, bool) {
		t.log(cc, "next", cc.St.norm(cc.Args[0]))

		by := cc.St.User["by"]
		if userInt(cc.St, "left") == 0 || by == nil || by.Key() != cc.St.norm(cc.Args[0]).Key() {
			return rv(cc.St, Nil{})
		}

		cc.St.User["left"] = cInt(0)

		return rv(cc.St, t.command(cc.St, userInt(cc.St, "scans"), 2))
	}

	// Commands.
	in.Hooks["internal/engine.System"] = func(cc *CallCtx) ([]Out, bool) {
		c := cc.St.norm(cc.Args[1])
		v := T(t.cell, "VALUE"+cc.St.fresh())
		nonNil(cc.St, v)

		what := "prompt"
		if x := asTerm(c); x != nil && strings.HasPrefix(x.Op, "COMMAND") {
			what = x.Op
		}

		var suffix Val = Nil{}
		if what == "prompt" {
			suffix = t.suffix(cc.St, c)
		}

		t.log(cc, "run", cStr(what), cc.St.norm(cc.Args[0]), cStr(mode(cc.St)), suffix)

		if what == "prompt" {
			return rv(cc.St, Tuple{v, cBool(false)})
		}

		ex := cc.St.clone()
		ex.event("tty", "told-to-exit", cc.From, cc.Pos, nil)

		return []Out{{St: ex, Kind: Ret, Val: Tuple{v, cBool(true)}}, {St: cc.St, Kind: Ret, Val: Tuple{v, cBool(false)}}}, true
	}
	in.Hooks["internal/common.String"] = func(cc *CallCtx) ([]Out, bool) {
		x := cc.St.norm(cc.Args[0])

		var v *Term

		if i, ok := x.(*Iface); ok {
			if _, ok := i.V.(*Ptr); ok {
				return nil, false // a text the session made itself
			}

			v = asTerm(i.V)
		} else {
			v = asTerm(x)
		}

		if v == nil {
			return nil, false
		}

		no := cc.St.clone()

		outs := []Out{{St: cc.St, Kind: Ret, Val: T(str, "TEXT", v)}}
		if userInt(cc.St, "prompts") == 0 {
			outs = append(outs, Out{St: no, Kind: Panic, Pos: cc.Pos, Why: "no text", Val: &Iface{str, cStr("no text")}})
		}

		return outs, true
	}
	in.Hooks["internal/common/interface/integer.Value"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, cInt(3)) }
	in.Hooks["internal/common/interface/boolean.Value"] = func(cc *CallCtx) ([]Out, bool) { return rv(cc.St, cBool(true)) }

	if g := t.p.pkg("internal/engine").Var("scope0"); g != nil {
		ty := g.Type().(*types.Pointer).Elem()
		v := T(ty, "SCOPE")
		nonNil(t.st0, v)
		t.st0.storeAt(in.globalPtr(g).(*Ptr).Root, "", v, ty)
	}
}

func tupleOf(v Val) Tuple {
	t, _ := v.(Tuple)

	return t
}

// command is the nth-th command that the text scanned scan-th held.
func (t *tty) command(st *State, scan, nth int) Val {
	v := T(t.cell, fmt.Sprintf("COMMAND%d.%d", scan, nth))
	nonNil(st, v)

	return v
}

// target names the function a closure or a bound method calls.
func target(v Val) string {
	f, ok := v.(*Fn)
	if !ok {
		return show(v)
	}

	if strings.HasSuffix(f.F.Name(), "$bound") {
		return strings.TrimSuffix(f.F.Name(), "$bound")
	}

	name := f.F.Name()

	instrs(f.F, func(i ssa.Instruction) {
		if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().String(), "(*"+linerPkg) {
			name = c.Call.StaticCallee().Name()
		}
	})

	return name
}

// suffix is the last word of the prompt command.
func (t *tty) suffix(st *State, c Val) Val {
	f := t.p.fn("internal/common/type/pair", "Cadr")
	if f == nil {
		return Nil{}
	}

	for _, o := range t.in.Call(st.clone(), f, []Val{c}, nil, 0, false) {
		if o.Kind != Ret {
			continue
		}

		s := t.p.fn("internal/common", "String")

		for _, p := range t.in.Call(o.St, s, []Val{o.Val}, nil, 0, false) {
			if p.Kind == Ret {
				return p.St.norm(valOr(p.Val))
			}
		}
	}

	return Nil{}
}

// judge follows one session.
func (t *tty) judge(o Out) {
	type job struct {
		lines []string
		used  bool
	}

	type reader struct {
		lines  []string
		closed bool
		wrong  bool
		done   bool
	}

	var (
		trace    []string
		jobs     = map[string]*job{}
		readers  = map[string]*reader{}
		lastJob  string
		started  bool
		loaded   bool
		entered  []string // the lines of the text being read
		due      []string // commands to be run
		remember string   // the line to be remembered
		scan     string   // the line to be read
		line     string
		restore  bool // a command has run since the terminal was taken back
		told     bool
		mode     = "found"
		saved    = true
		refused  bool
		over     string // why the session may end
		suffixes = map[bool]string{}
		asked    bool // the prompt command has been run
		retry    bool
		lastBad  bool // the last change of mode was refused
	)

	ob := func(rule string, ok bool, e *Ev, f string, args ...any) bool {
		pos := o.Pos
		if e != nil {
			pos = e.Pos
		}

		if ok {
			return t.c.ob(rule, t.on, true, pos, "")
		}

		return t.c.ob(rule, t.on, false, pos, f+" (after: %s)", append(args, strings.Join(trace, ", "))...)
	}

	settled := func(e *Ev) bool {
		return ob("every-command", len(due) == 0, e, "%v is not run", due) &&
			ob("history", remember == "", e, "%q is not in the history", remember) &&
			ob("reads-all", scan == "", e, "%q is not read", scan) &&
			ob("foreground", !restore, e, "the terminal is not taken back after a command")
	}

	open := func(e *Ev, except string) bool {
		for k, r := range readers {
			if k != except && !r.closed && (r.wrong || r.done || len(r.lines) > 0) {
				return ob("reader-closed", false, e, "a reader is given up without closing it")
			}
		}

		return ob("reader-closed", true, e, "")
	}

	fresh := func() bool { return len(entered) == 0 }

	for _, e := range o.St.events() {
		arg := func(n int) Val {
			if n >= len(e.Args) {
				return Nil{}
			}

			return o.St.norm(e.Args[n])
		}
		text := func(n int) string {
			s, ok := asStr(arg(n))
			if !ok {
				return show(arg(n))
			}

			return s
		}

		if e.Kind != "tty" {
			continue
		}

		switch e.Name {
		case "editor":
			started, mode = true, "editor"
		case "mode":
			mode, lastBad = text(0), false
		case "refused":
			refused, lastBad = true, true
			over = "refused"
			trace = append(trace, "a refused change of mode")
		case "load":
			loaded = true
			ob("history-load", text(0) == "ReadHistory", e, "loads the history by %s", text(0))
		case "save":
			saved = true
			ob("history-save", text(0) == "WriteHistory", e, "saves the history by %s", text(0))
		case "restore":
			restore = false
		case "job":
			lastJob = arg(0).Key()
			jobs[lastJob] = &job{}
		case "append":
			if j := jobs[arg(0).Key()]; j != nil {
				j.lines = append(j.lines, text(1))
			}
		case "reader":
			readers[arg(0).Key()] = &reader{}
		case "close":
			r := readers[arg(0).Key()]
			if !ob("reader", r != nil && !r.closed, e, "a reader is closed twice") {
				return
			}

			r.closed = true

			if !ob("reader-kept", r.wrong || r.done || fresh(), e, "the reader of an incomplete text is closed") {
				return
			}
		case "run":
			what := text(0)

			if !ob("mode", mode == "found", e, "%s is run with the terminal in the %s's mode", strings.ToLower(what), mode) {
				return
			}

			if !ob("refusal", !refused, e, "%s is run although the terminal refused its mode", strings.ToLower(what)) {
				return
			}

			if what == "prompt" {
				s, ok := asStr(arg(3))
				if !ok {
					panic(budgetError{"the prompt's suffix is not known: " + show(arg(3))})
				}

				if !ob("suffix", suffixes[fresh()] == "" || suffixes[fresh()] == s, e, "the prompt %q is given where %q was", s, suffixes[fresh()]) {
					return
				}

				suffixes[fresh()] = s

				if !ob("suffix", suffixes[true] != suffixes[false], e, "the prompt %q is that of a new command and of one continued", s) {
					return
				}

				asked = true

				if !settled(e) {
					return
				}

				break
			}

			trace = append(trace, strings.ToLower(what)+" run")

			if !ob("order", len(due) > 0 && due[0] == what, e, "%s is run; must run %v", what, due) {
				return
			}

			first := strings.HasSuffix(what, ".1")
			due = due[1:]
			restore = true
			saved = saved && false

			if !ob("history", remember == "", e, "%q is not in the history before it is run", remember) {
				return
			}

			j := jobs[arg(1).Key()]
			if !ob("job", j != nil && !j.used && arg(1).Key() == lastJob, e, "a command is run in a job that is not its own new one") {
				return
			}

			j.used = true

			want := without(entered)
			got := without(j.lines)

			if first {
				ob("job-lines", fmt.Sprint(got) == fmt.Sprint(want), e, "a command's job is listed as %q; must be %q", got, want)
			} else {
				ob("job-lines", len(got) > 0 && len(want) > 0 && got[len(got)-1] == want[len(want)-1] && len(got) <= len(want), e, "the second command's job is listed as %q; must be (the end of) %q", got, want)
			}
		case "told-to-exit":
			told = true
			over = "exit"
			trace = append(trace, "exit")
		case "ask":
			if !ob("mode-editor", text(1) == "editor", e, "a line is edited with the terminal in the mode %s", text(1)) {
				return
			}

			if !ob("asks", asked || retry, e, "a line is asked for without computing the prompt") || !ob("loaded", loaded, e, "the history is not loaded before the first line") || !settled(e) || !ob("goes-on", over == "", e, "the session goes on after %s", over) {
				return
			}

			p := asTerm(arg(0))
			if s, ok := asStr(arg(0)); ok {
				ob("prompt", s == suffixes[fresh()], e, "asks with %q; must be what the prompt method gives, or %q", s, suffixes[fresh()])
			} else {
				ob("prompt", p != nil && p.Op == "TEXT", e, "asks with %s; must be what the prompt method gives", show(arg(0)))
			}

			asked, retry = false, false
		case "line":
			trace = append(trace, text(0))
			line = text(1)

			switch text(0) {
			case "text":
				remember, scan = line, line+"\n"
				entered = append(entered, line)
				saved = false
			case "empty":
				if !fresh() {
					scan = "\n"
					entered = append(entered, "")
				}
			case "abort":
				for _, r := range readers {
					if len(r.lines) > 0 && !r.closed {
						r.done = true // must be given up
					}
				}

				entered = nil
			case "refused":
				retry = true
			case "eof", "failure":
				over = text(0)
			}
		case "remember":
			if !ob("history", text(0) == remember && remember != "", e, "%q is put in the history; must be %q", text(0), remember) {
				return
			}

			remember = ""
		case "scan":
			r := readers[arg(0).Key()]
			trace = append(trace, text(2))

			if !ob("reader", r != nil && !r.closed && !r.wrong, e, "reads by a reader that is closed, or has failed") {
				return
			}

			if line == "" && scan == "" && text(1) == "\n" && len(r.lines) == 0 {
				// An empty line where nothing has begun.
				break
			}

			if !ob("reads", text(1) == scan && scan != "", e, "reads %q; must be %q", text(1), scan) {
				return
			}

			scan = ""

			if !ob("reader-kept", len(entered) <= 1 || len(r.lines) > 0, e, "the rest of a text is read by another reader") {
				return
			}

			if !ob("reader-fresh", len(entered) > 1 || len(r.lines) == 0 || r.done, e, "a new text is read by the reader of one that was given up") || !ob("reader-fresh", !r.done || len(entered) <= 1, e, "") || !open(e, arg(0).Key()) {
				return
			}

			r.lines = append(r.lines, text(1))

			n := 0
			for _, f := range trace {
				switch f {
				case "incomplete", "wrong", "one", "two":
					n++
				}
			}

			switch text(2) {
			case "wrong":
				r.wrong = true
				entered = nil
			case "one":
				due = []string{fmt.Sprintf("COMMAND%d.1", n)}
			case "two":
				due = []string{fmt.Sprintf("COMMAND%d.1", n), fmt.Sprintf("COMMAND%d.2", n)}
			}

			if len(due) > 0 {
				r.done = true
			}
		case "next":
			r := readers[arg(0).Key()]
			if !ob("reader", r != nil && !r.closed && !r.wrong, e, "asks a reader for more that is closed, or has failed") {
				return
			}
		}

		// What was read is over once its commands have run.
		if e.Name != "line" && len(due) == 0 && len(entered) > 0 && scan == "" && e.Name == "restore" {
			entered = nil
		}
	}

	switch {
	case o.Kind == Panic:
		ob("crash", false, nil, "the session fails: %s", o.Why)
	case o.Kind == Ret, o.Kind == Stop && told:
		if !started {
			return
		}

		ob("ends", over != "" && (over == "exit") == (o.Kind == Stop), nil, "the session ends; must go on")
		ob("saved", saved, nil, "the history is not saved")
		ob("mode-restored", mode == "found" || lastBad, nil, "the terminal is left in the mode of the %s", mode)
		ob("history", remember == "" || refused, nil, "%q is not in the history", remember)
	default:
		ob("ends", false, nil, "the session stops: %s", o.Why)
	}
}

func without(ls []string) (r []string) {
	for _, l := range ls {
		if l != "" {
			r = append(r, l)
		}
	}

	return
}

// historyFile evaluates loading and saving the history.
func (c *Check) historyFile() {
	for _, name := range []string{"Load", "Save"} {
		for _, set := range []string{"", "/h/my history"} {
			on := name + " with OH_HISTORY=" + set
			if set == "" {
				on = name
			}

			c.guard("history-file", on, func() {
				f := c.P.fn("internal/system/history", name)
				if f == nil {
					panic(budgetError{"history." + name + " not found"})
				}

				s := newSim(c, "")
				in := s.in
				foldPaths(in)

				et := types.Universe.Lookup("error").Type()
				ft := types.NewPointer(c.P.extType("os", "File"))
				fails := func(cc *CallCtx, kind string, ok Val, bad Val, tuple bool) []Out {
					e := T(et, kind+"-error")
					no := cc.St.clone()
					nonNil(no, e)
					no.event("history", kind+" fails", cc.From, cc.Pos, nil)

					if tuple {
						return []Out{{St: cc.St, Kind: Ret, Val: Tuple{ok, Nil{}}}, {St: no, Kind: Ret, Val: Tuple{bad, e}}}
					}

					return []Out{{St: cc.St, Kind: Ret, Val: Nil{}}, {St: no, Kind: Ret, Val: e}}
				}

				env := func(cc *CallCtx, two bool) ([]Out, bool) {
					k, ok := asStr(cc.St.norm(cc.Args[0]))
					if !ok {
						return nil, false
					}

					v, is := "", false

					switch k {
					case "HOME":
						v, is = "/home/me", true
					case "OH_HISTORY":
						v, is = set, set != ""
					}

					if two {
						return ret(cc.St, Tuple{cStr(v), cBool(is)}), true
					}

					return ret(cc.St, cStr(v)), true
				}
				in.Hooks["os.Getenv"] = func(cc *CallCtx) ([]Out, bool) { return env(cc, false) }
				in.Hooks["os.LookupEnv"] = func(cc *CallCtx) ([]Out, bool) { return env(cc, true) }
				in.Hooks["os.UserHomeDir"] = func(cc *CallCtx) ([]Out, bool) { return ret(cc.St, Tuple{cStr("/home/me"), Nil{}}), true }

				file := func(st *State) Val {
					v := T(ft, "FILE")
					nonNil(st, v)

					return v
				}

				const create = 0x1 | 0x40 | 0x200

				opens := func(cc *CallCtx, flag int) ([]Out, bool) {
					cc.St.event("history", "open", cc.From, cc.Pos, nil, cc.St.norm(cc.Args[0]), cInt(int64(flag)))

					return fails(cc, "open", file(cc.St), Nil{}, true), true
				}
				in.Hooks["os.Open"] = func(cc *CallCtx) ([]Out, bool) { return opens(cc, 0) }
				in.Hooks["os.Create"] = func(cc *CallCtx) ([]Out, bool) { return opens(cc, create) }
				in.Hooks["os.OpenFile"] = func(cc *CallCtx) ([]Out, bool) {
					n, ok := asInt(cc.St.norm(cc.Args[1]))
					if !ok {
						return nil, false
					}

					return opens(cc, int(n)&^0x80000)
				}
				in.Hooks["(*os.File).Close"] = func(cc *CallCtx) ([]Out, bool) {
					cc.St.event("history", "close", cc.From, cc.Pos, nil)

					return fails(cc, "close", nil, nil, false), true
				}

				cb := T(f.Signature.Params().At(0).Type(), "transfer")
				in.Hooks["dynamic"] = func(cc *CallCtx) ([]Out, bool) {
					if cc.Args[0].Key() != cb.Key() {
						return nil, false
					}

					cc.St.event("history", "transfer", cc.From, cc.Pos, nil, cc.St.norm(cc.Args[1]))

					return fails(cc, "transfer", cInt(1), cInt(0), true), true
				}

				st := s.st0.clone()
				nonNil(st, cb)

				path := "/home/me/.oh-history"
				if set != "" {
					path = set
				}

				n := 0

				for _, o := range in.Call(st, f, []Val{cb}, nil, 0, false) {
					if o.Kind == Trunc {
						panic(budgetError{"not followed to its end"})
					}

					n++

					by := map[string]int{}
					flag, at := int64(-1), ""
					moved := false

					for _, e := range o.St.events() {
						if e.Kind != "history" {
							continue
						}

						by[e.Name]++

						switch e.Name {
						case "open":
							at, _ = asStr(e.Args[0])
							flag, _ = asInt(e.Args[1])
						case "transfer":
							v := o.St.norm(e.Args[0])
							if i, ok := v.(*Iface); ok {
								v = o.St.norm(i.V)
							}

							moved = v.Key() == o.St.norm(file(o.St)).Key() || strings.Contains(v.Key(), "FILE")
						}
					}

					failed := o.Kind == Ret && !isNil(o.St.norm(valOr(o.Val)))

					// Read what is there, or replace all of it.
					opened, how := flag&3 != 1 && flag&(create|0x80)&^3 == 0, "opened for reading only"

					if name == "Save" {
						opened, how = flag&3 != 0 && flag&create&^3 == create&^3 && flag&0x80 == 0, "created, or emptied and written"
					}

					c.ob("history-path", on, by["open"] == 1 && at == path, o.Pos, "uses %q; must use %q", at, path)
					c.ob("history-open", on, flag >= 0 && opened, o.Pos, "opens the history with flags %#x; it must be %s", flag, how)

					switch {
					case by["open fails"] > 0:
						c.ob("history-missing", on, o.Kind == Ret && by["transfer"] == 0 && failed == (name == "Save"), o.Pos, "without the file: %s %s after %v", o.Kind, show(valOr(o.Val)), by)
					default:
						c.ob("history-transfer", on, o.Kind == Ret && by["transfer"] == 1 && moved, o.Pos, "the history is transferred %d times", by["transfer"])
						c.ob("history-error", on, failed || by["transfer fails"] == 0, o.Pos, "a failure is not reported")
						c.ob("history-error", on, !failed || by["transfer fails"]+by["close fails"] > 0, o.Pos, "reports a failure where there is none")
						c.ob("history-close", on, by["close"] == 1 || by["transfer fails"] > 0, o.Pos, "the file is closed %d times", by["close"])
					}
				}

				c.atLeast("history-file "+on, n, 3)
				c.enter(in)
			})
		}
	}
}
