package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"
)

func init() {
	rules["C04"] = rule{
		explain: "The shell's start-up script, which defines the redirection operators, is interpreted abstractly: for every operator, every kind of operand and state of the file system, and every kind of command, with the command free to write, read, return or throw, every way through the script is followed and the order of what it does (evaluating the operand, opening, running the command, closing) and the command's stdin, stdout and stderr are compared with what the operator means. The mode each operator opens its file with is traced through the open builtin to the flags of the system call, and exists through the system call that answers it.",
		assume:  []string{"the primitives the script uses mean what the evaluator's own properties (C02, C03, C06, C10, C13, C20) establish; the reader builds from the text of the script what the grammar says (C17)", "os.OpenFile and os.Stat behave as documented"},
		run:     checkC04,
	}
}

type loperand struct {
	name, text string
	path       string // the file it stands for; empty if it is a conduit
	state      string // of the file system there: "", file or device
	conduit    string
	bad        string // why it cannot be used
}

type lredirect struct {
	op                string
	in, out, errs     bool
	end               string
	refuse, mustExist bool
	trunc, append     bool
}

var lredirects = []lredirect{
	{op: "<", in: true, end: "reader", mustExist: true},
	{op: ">", out: true, end: "writer", refuse: true, trunc: true},
	{op: ">|", out: true, end: "writer", trunc: true},
	{op: ">>", out: true, end: "writer", append: true},
	{op: ">&", out: true, errs: true, end: "writer", refuse: true, trunc: true},
	{op: ">&|", out: true, errs: true, end: "writer", trunc: true},
	{op: ">>&", out: true, errs: true, end: "writer", append: true},
}

var loperands = []loperand{
	{name: "a new name", text: "f", path: "f"},
	{name: "an existing file", text: "f", path: "f", state: "file"},
	{name: "a device", text: "f", path: "f", state: "device"},
	{name: "a new name in a string", text: "'f*'", path: "f*"},
	{name: "an existing file in a string", text: "'f*'", path: "f*", state: "file"},
	{name: "a pattern matching a file", text: "g*", path: "gg", state: "file"},
	{name: "a pattern matching several files", text: "h*", bad: "several"},
	{name: "a pattern matching nothing", text: "n*", bad: "nothing"},
	{name: "a command", text: "(operand)", path: "f"},
	{name: "a variable", text: "$mine", path: "f", state: "file"},
	{name: "a file that cannot be opened", text: "f", path: "f", state: "forbidden"},
	{name: "a pipe", text: "$apipe", conduit: "pipe"},
	{name: "a channel", text: "$achan", conduit: "chan"},
}

func checkC04(c *Check) {
	b := c.bootScript("script")
	if b == nil {
		return
	}

	k := newKit(c)
	k.in.Hooks["os.OpenFile"] = func(cc *CallCtx) ([]Out, bool) {
		tu := cc.Res.(*types.Tuple)
		bad := cc.St.clone()

		file := T(tu.At(0).Type(), "file", append([]Val{}, cc.Args...)...)
		nonNil(cc.St, file)

		good := Tuple{file, Nil{}}
		cc.St.event("effect", cc.Name, cc.From, cc.Pos, good, cc.Args...)

		err := T(tu.At(1).Type(), "error", cStr("open"))
		nonNil(bad, err)

		lost := Tuple{Nil{}, err}
		bad.event("effect", cc.Name, cc.From, cc.Pos, lost, cc.Args...)

		return append(ret(cc.St, good), ret(bad, lost)...), true
	}

	modes := map[string]openFlags{}
	n := 0

	for _, r := range lredirects {
		for _, o := range loperands {
			for _, cmd := range []struct{ name, text string }{
				{"a builtin", "cmd $here (list a2)"},
				{"a method", "m $here (list a2)"},
				{"an object's method", "o m $here (list a2)"},
				{"a block", "block {\n during\n cmd $here (list a2)\n}"},
			} {
				if cmd.name != "a builtin" && o.name != "a new name" && o.name != "a device" {
					continue
				}

				b.redirect(r, o, cmd.name, cmd.text, k, modes)

				n++
			}
		}

		b.redirectNames(r)
		b.redirectValue(r)
	}

	b.redirectTwo()
	b.redirectNested()
	b.flush()
	c.atLeast("redirection", n, 100)

	c.operators("operator", "<", ">", ">|", ">>", ">&", ">&|", ">>&")
	c.reads("grammar", append(mixed(3, ">", "|", ";", "&&"), "a > b _ > 'q' _ > $ a", "a > $ a b", "a > ( a _ b )", "( a ; b ) > a",
		"a _ { N b N } > a", "a > b 'q' \"r\" _ > a", "a > b |< ( a > b )", "b = a _ a > b &")...)
	c.existsBuiltin(k)
	c.conduitMethods(k)
	c.enter(k.in)
}

func (w *lworld) operandWorld(o loperand) {
	if o.path != "" && o.state != "" {
		w.fs[o.path] = o.state
	}

	w.content[o.path] = []lv{lstr("line")}
	w.globs["g*"] = []string{"gg"}
	w.globs["h*"] = []string{"ha", "hb"}

	w.native("operand", func(t *ltask, args lv) lv {
		w.event(t, levent{what: "operand"})

		return lsym(o.path)
	})

	for _, k := range []string{"pipe", "chan"} {
		c := w.conduit(k, "given "+k, 9)
		c.given = true
		w.env0.export("a"+k, c)
	}
}

func (b *bootScript) redirect(r lredirect, o loperand, cname, ctext string, k *kit, modes map[string]openFlags) {
	text := `
define m: method (x y) {
    cmd $x $y
}
define o: object {
    export m: method (x y) {
        cmd $x $y
    }
}
define run: method () {
    catch ex {
        during
        return (caught $ex)
    }
    define here a1
    define mine f
    result (` + ctext + ` ` + r.op + ` ` + o.text + `)
    after
}
run
after
`

	b.explore("redirection", r.op+" "+o.name+" with "+cname, text, func(w *lworld) {
		w.operandWorld(o)
		w.probe("cmd", lbehave{throws: true, v: lsym("V")})
	}, func(w *lworld, main *ltask) string {
		es := w.since("open", "close", "begin", "end", "operand", "result", "caught", "program")
		std := []lv{w.std[0], w.std[1], w.std[2]}
		inner := append([]lv{}, std...)

		for i, on := range []bool{r.in, r.out, r.errs} {
			if on && o.conduit != "" {
				_, ref := w.frame0.resolve("a" + o.conduit)
				inner[i] = ref.v
			}
		}

		next := func(what, name string) (levent, string) {
			if len(es) == 0 {
				return levent{}, fmt.Sprintf("nothing is done where the next thing to do is to %s %s", what, name)
			}

			e := es[0]
			if e.what != what || name != "" && e.name != name {
				return levent{}, fmt.Sprintf("what is done next is %q, not to %s %s", e, what, name)
			}

			es = es[1:]

			return e, ""
		}

		run := func(name string, std []lv) (levent, string) {
			e, s := next("begin", name)
			if s == "" {
				s = w.is(e, std[0], std[1], std[2])
			}

			end, s2 := next("end", name)

			return end, valOr2(s, s2)
		}

		if o.name == "a command" {
			if _, s := next("operand", ""); s != "" {
				return s
			}
		}

		refused := o.bad != "" || o.conduit == "" && (r.refuse && (o.state == "file" || o.state == "forbidden") || r.mustExist && o.state == "" || o.state == "forbidden")
		thrown := ""

		if !refused {
			var f *lconduit

			if o.conduit == "" {
				e, s := next("open", o.path)
				if s != "" {
					return s
				}

				f = e.obj

				for i, on := range []bool{r.in, r.out, r.errs} {
					if on {
						inner[i] = f
					}
				}

				b.mu.Lock()
				s = b.c.opens(k, modes, r, e.mode)
				b.mu.Unlock()

				if s != "" {
					return s
				}
			}

			if cname == "a block" {
				if _, s := run("during", inner); s != "" {
					return s
				}
			}

			if len(es) > 0 && lshow(es[0].v) != "(a1 (a2))" {
				return fmt.Sprintf("the command is passed %s", lshow(es[0].v))
			}

			end, s := run("cmd", inner)
			if s != "" {
				return s
			}

			if end.mode == "throws" {
				thrown = ltext(end.v)
			}

			if f != nil {
				e, s := next("close", "")
				if s != "" {
					return s
				}

				if e.obj != f || e.mode != r.end && e.mode != "both" {
					return fmt.Sprintf("the %s end of %s is closed", e.mode, e.obj.kind)
				}
			}
		}

		if refused || thrown != "" {
			if _, s := run("during", std); s != "" {
				return s
			}

			e, s := next("caught", "")
			if s != "" {
				return s
			}

			if msg := lshow(e.v); thrown != "" && msg != "('"+thrown+"')" || msg == "(())" || thrown == "" && o.path != "" && !strings.Contains(msg, o.path) {
				return "the exception is " + msg
			}
		} else {
			e, s := next("result", "")
			if s != "" {
				return s
			}

			if lshow(e.v) != "(V)" {
				return "the value is " + lshow(e.v)
			}

			if _, s := run("after", std); s != "" {
				return s
			}
		}

		if _, s := run("after", std); s != "" {
			return s
		}

		if len(es) > 0 {
			return fmt.Sprintf("what is done in the end is %q", es[0])
		}

		return ""
	})
}

type openFlags struct {
	flags       int
	read, write bool
	bad         string
}

// opens compares the way a mode opens a file with what an operator needs.
func (c *Check) opens(k *kit, modes map[string]openFlags, r lredirect, mode string) string {
	f, ok := modes[mode]
	if !ok {
		f = k.openMode(mode)
		modes[mode] = f
	}

	switch {
	case f.bad != "":
		return fmt.Sprintf("open %s: %s", mode, f.bad)
	case r.in && (!f.read || f.flags&os.O_TRUNC != 0):
		return fmt.Sprintf("open %s gives flags %#x (reading end %v) for a file to read", mode, f.flags, f.read)
	case r.out && (!f.write || f.flags&os.O_CREATE == 0 || (f.flags&os.O_TRUNC != 0) != r.trunc || (f.flags&os.O_APPEND != 0) != r.append):
		return fmt.Sprintf("open %s gives flags %#x (writing end %v) for %s", mode, f.flags, f.write, r.op)
	}

	return ""
}

// openMode is what the open builtin does for a mode.
func (k *kit) openMode(mode string) (f openFlags) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetError); ok {
				f.bad = b.s

				return
			}

			panic(r)
		}
	}()

	fn := k.registry("Functions")["open"]
	if fn == nil {
		panic(budgetError{"there is no builtin open"})
	}

	st := k.st0.clone()
	path := T(types.Typ[types.String], "PATH")

	cellOf := func(v Val) Val {
		outs := k.run(st, k.p.fn("internal/common/type/str", "New"), v)
		if len(outs) != 1 || outs[0].Kind != Ret {
			panic(budgetError{"str.New has several outcomes"})
		}

		st = outs[0].St

		return outs[0].Val
	}

	args := k.list(st, cellOf(cStr(mode)), cellOf(path))

	n := 0

	for _, o := range k.run(st, fn, args) {
		var opens []*Ev

		for _, e := range o.St.events() {
			if strings.HasPrefix(e.Name, "os.") && e.Name != "os.OpenFile" {
				return openFlags{bad: "it calls " + e.Name}
			}

			if e.Name == "os.OpenFile" {
				opens = append(opens, e)
			}
		}

		if len(opens) != 1 {
			// A mode that opens nothing has to be refused.
			if o.Kind == Ret {
				return openFlags{bad: fmt.Sprintf("the file is opened %d times", len(opens))}
			}

			continue
		}

		if opens[0].Args[0].Key() != path.Key() {
			return openFlags{bad: "it opens " + show(opens[0].Args[0])}
		}

		flags, ok := asInt(o.St.norm(opens[0].Args[1]))
		if !ok {
			return openFlags{bad: "the flags are " + show(opens[0].Args[1])}
		}

		if perm, ok := asInt(o.St.norm(opens[0].Args[2])); !ok || perm != 0o666 {
			return openFlags{bad: "the permissions are " + show(opens[0].Args[2])}
		}

		if o.Kind != Ret {
			continue
		}

		file := opens[0].Ret.(Tuple)[0]

		end := func(fn string) bool {
			outs := k.run(o.St.clone(), k.p.fn("internal/common/type/pipe", fn), o.Val)

			return len(outs) > 0 && outs[0].Kind == Ret && outs[0].St.norm(outs[0].Val).Key() == outs[0].St.norm(file).Key()
		}

		g := openFlags{flags: int(flags), read: end("R"), write: end("W")}
		if acc := int(flags) & 3; acc == os.O_RDONLY && g.write || acc == os.O_WRONLY && g.read {
			g.bad = "an end is given that cannot be used"
		}

		if n > 0 && g != f {
			return openFlags{bad: "it opens the file in different ways"}
		}

		f = g
		n++
	}

	if n == 0 {
		f.bad = "it never opens the file"
	}

	return f
}

// redirectNames checks that variables keep their values in a redirected
// command whatever they are called.
func (b *bootScript) redirectNames(r lredirect) {
	for _, n := range b.localNames() {
		text := "define run: method () {\n define " + n + " mine\n result (probed $" + n + " " + r.op + " f)\n}\nrun\n"

		b.explore("variables", r.op+" with a variable named "+n, text, func(w *lworld) {
			if r.mustExist {
				w.fs["f"] = "file"
			}

			w.probe("probed", lbehave{v: lsym("V")})
		}, func(w *lworld, _ *ltask) string {
			es := w.since("begin")
			if len(es) != 1 || lshow(es[0].v) != "(mine)" {
				return "the command is run as " + levents(es)
			}

			return ""
		})
	}
}

// redirectValue checks that what a redirected command changes stays changed
// and that what it defines does not.
func (b *bootScript) redirectValue(r lredirect) {
	text := `
define x 1
block {
    set x 2
    define y 3
} ` + r.op + ` f
result $x
result (resolves? y)
`

	b.explore("scope", r.op, text, func(w *lworld) {
		if r.mustExist {
			w.fs["f"] = "file"
		}
	}, func(w *lworld, _ *ltask) string {
		if s := levents(w.since("result")); s != "result (2); result (())" {
			return s
		}

		return ""
	})
}

// redirectTwo combines two redirections of one command.
func (b *bootScript) redirectTwo() {
	for _, t := range []struct {
		text          string
		in, out, errs string
	}{
		{"cmd < i > o", "i", "o", "stderr"},
		{"cmd > o < i", "i", "o", "stderr"},
		{"cmd > o >&| e", "stdin", "o", "e"},
		{"cmd >& e < i", "i", "e", "e"},
		{"cmd >& e >| o", "stdin", "e", "e"},
		{"cmd >> o < i", "i", "o", "stderr"},
	} {
		b.explore("two-redirections", t.text, t.text+"\nafter\n", func(w *lworld) {
			w.fs["i"] = "file"
			w.probe("cmd", lbehave{throws: true, v: lsym("V")})
		}, func(w *lworld, _ *ltask) string {
			es := w.since("open", "close", "begin", "end")
			if len(es) < 8 || es[0].what != "open" || es[1].what != "open" || es[2].what != "begin" || es[3].what != "end" || es[4].what != "close" || es[5].what != "close" {
				return levents(es)
			}

			for i, v := range []lv{es[2].stdin, es[2].stdout, es[2].stderr} {
				want := []string{t.in, t.out, t.errs}[i]

				c, ok := v.(*lconduit)
				if !ok || c.path != want && c.name != want {
					return fmt.Sprintf("%s is %s", []string{"stdin", "stdout", "stderr"}[i], lshow(v))
				}
			}

			if es[4].obj == es[5].obj || es[4].obj != es[0].obj && es[4].obj != es[1].obj || es[5].obj != es[0].obj && es[5].obj != es[1].obj {
				return "closes " + levents(es[4:6])
			}

			return w.is(es[6], w.std[0], w.std[1], w.std[2])
		})
	}
}

// redirectNested redirects a command that redirects one of its own.
func (b *bootScript) redirectNested() {
	text := `
define m: method () {
    inner > f
    outer
}
m > g
after
`
	b.explore("nested", "a redirection inside a redirected method", text, func(w *lworld) {
		w.probe("inner", lbehave{throws: true, v: lsym("V")})
		w.probe("outer", lbehave{throws: true, v: lsym("V")})
	}, func(w *lworld, _ *ltask) string {
		open := map[*lconduit]bool{}

		for _, e := range w.since("open", "close", "begin") {
			switch {
			case e.what == "open":
				open[e.obj] = true
			case e.what == "close":
				delete(open, e.obj)
			case e.name == "after":
				if s := w.is(e, w.std[0], w.std[1], w.std[2]); s != "" {
					return s
				}
			default:
				want := map[string]string{"inner": "f", "outer": "g"}[e.name]
				if o, ok := e.stdout.(*lconduit); !ok || o.path != want || !open[o] {
					return fmt.Sprintf("stdout of %s is %s", e.name, lshow(e.stdout))
				}
			}
		}

		if len(open) > 0 {
			return fmt.Sprintf("%d files stay open", len(open))
		}

		return ""
	})
}

// existsBuiltin checks what the redirections ask about their operands.
func (c *Check) existsBuiltin(k *kit) {
	m := mustMachine(c.P)
	internSyms(m)

	modes := []os.FileMode{0, os.ModeDir | 0o755, os.ModeNamedPipe, os.ModeDevice | os.ModeCharDevice, os.ModeDevice}

	m.In.Hooks["invoke io/fs.FileInfo.Mode"] = func(cc *CallCtx) ([]Out, bool) {
		key := "mode:" + cc.Args[0].Key()
		if v, ok := cc.St.User[key]; ok {
			return ret(cc.St, v), true
		}

		var outs []Out

		for _, n := range modes {
			st := cc.St.clone()
			v := Const{constant.MakeInt64(int64(n)), cc.Res}
			st.User[key] = v
			outs = append(outs, ret(st, v)...)
		}

		return outs, true
	}

	for _, form := range []struct {
		args   []string
		paths  []string
		ignore bool
	}{
		{[]string{"'x"}, []string{"x"}, false},
		{[]string{"'-i", "'x"}, []string{"x"}, true},
		{[]string{"'x", "'y"}, []string{"x", "y"}, false},
		{[]string{"'-i", "'x", "'y"}, []string{"x", "y"}, true},
	} {
		on := "exists " + strings.ReplaceAll(strings.Join(form.args, " "), "'", "")

		c.guard("exists", on, func() {
			st := m.W.Init.clone()

			res, _, err := m.Eval(st, L(append([]string{"'exists"}, form.args...)...)(m, st))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			yes, no := 0, 0

			for _, r := range res {
				if r.Kind == Trunc {
					continue
				}

				if r.Kind != Ret {
					c.fail("exists", on, r.Pos, "ends with %s %s", r.Kind, r.Why)

					continue
				}

				want, device, asked := true, false, []string{}

				for _, e := range r.St.events() {
					if e.Name != "os.Stat" {
						if strings.HasPrefix(e.Name, "os.") {
							c.fail("exists", on, r.Pos, "calls %s", e.Name)
						}

						continue
					}

					s, _ := asStr(r.St.norm(e.Args[0]))
					asked = append(asked, s)

					tu := e.Ret.(Tuple)
					if !isNil(r.St.norm(tu[1])) {
						want = false

						continue
					}

					if v, ok := r.St.User["mode:"+tu[0].Key()]; ok {
						n, _ := asInt(v)
						device = device || os.FileMode(n)&os.ModeDevice != 0
					} else if form.ignore {
						c.fail("exists", on, r.Pos, "does not look at the kind of %s", s)
					}
				}

				if form.ignore && device {
					want = false
				}

				if want {
					yes++
					c.ob("exists", on, strings.Join(asked, " ") == strings.Join(form.paths, " "), r.Pos, "asks about %v", asked)
				} else {
					no++
				}

				got := isTrue(m, r.St, r.Result)
				null := r.St.norm(r.Result).Key() == m.null(r.St).Key()
				c.ob("exists", on, got == want && null == !want, r.Pos, "answers %s where every path exists is %v", show(r.Result), want)
			}

			c.ob("exists", on, yes > 0 && no > 0, 0, "%d paths answer yes, %d no", yes, no)
		})
	}

	c.enter(m.In)
}

// conduitMethods checks the methods a script reaches a conduit by.
func (c *Check) conduitMethods(k *kit) {
	c.guard("conduit-method", "ConduitMethods", func() {
		fs := k.registry("ConduitMethods")

		for name, want := range map[string]string{
			"close": "Close", "read": "Read", "read-line": "ReadLine", "read-list": "Read",
			"reader-close": "ReaderClose", "write": "Write", "write-line": "WriteLine", "writer-close": "WriterClose",
		} {
			f := fs[name]
			if f == nil {
				c.fail("conduit-method", name, 0, "not defined")

				continue
			}

			st := k.st0.clone()
			self := T(k.cell, "CONDUIT")
			nonNil(st, self)

			args := k.list(st, k.unk(st, "a"))

			n := 0

			for _, o := range k.run(st, f, self, args) {
				if o.Kind != Ret {
					continue
				}

				n++

				var got []string

				for _, e := range o.St.events() {
					if strings.Contains(e.Name, "interface/conduit.I.") {
						got = append(got, e.Name[strings.LastIndex(e.Name, ".")+1:])

						if len(e.Args) > 1 && e.Args[1].Key() != args.Key() {
							got = append(got, "(something else)")
						}
					}
				}

				c.ob("conduit-method", name, strings.Join(got, " ") == want, f.Pos(), "calls %v", got)

				switch want {
				case "Write", "WriteLine":
					c.ob("conduit-value", name, o.Val.Key() == args.Key(), f.Pos(), "yields %s", show(o.Val))
				case "Close", "ReaderClose", "WriterClose":
					c.ob("conduit-value", name, o.St.norm(o.Val).Key() == k.null(o.St).Key(), f.Pos(), "yields %s", show(o.Val))
				}
			}

			c.ob("conduit-method", name+" succeeds", n > 0, f.Pos(), "no path returns")

			// What reading yields.
			part, isRead := map[string]int{"read": 1, "read-line": 0, "read-list": 0}[name]
			if !isRead {
				continue
			}

			x := k.unk(st, "x")
			line := k.list(st, x, k.unk(st, "y"))
			old := map[string]Hook{}

			for _, h := range []string{"Read", "ReadLine"} {
				h := "invoke internal/common/interface/conduit.I." + h
				old[h] = k.in.Hooks[h]
				k.in.Hooks[h] = func(cc *CallCtx) ([]Out, bool) { return ret(cc.St, line), true }
			}

			for _, o := range k.run(st, f, self, k.null(st)) {
				if o.Kind == Ret {
					want := []Val{line, x}[part]
					c.ob("conduit-value", name, o.St.norm(o.Val).Key() == o.St.norm(want).Key(), f.Pos(), "yields %s of what is read", show(o.Val))
				}
			}

			for h, f := range old {
				if k.in.Hooks[h] = f; f == nil {
					delete(k.in.Hooks, h)
				}
			}
		}
	})
}
