package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

func init() {
	rules["C28"] = rule{
		explain: "The program's entry point is evaluated for every form of the command line, with and without a terminal, and every result of reading the command: what is evaluated, in which order, with which positional parameters, and how the process ends are compared with the usage text. The text evaluated for a script is decoded and must name exactly the path given. Start-up is evaluated for what $0, $1..., $@ and $ORIGIN become.",
		assume:  []string{"docopt parses the usage text as documented", "source runs the file it is given (C04, C17)"},
		run:     checkC28,
	}
}

type cmdLine struct {
	script, command, name string
	args                  []string
	tty, i, m             bool
	version               bool
}

func (l cmdLine) String() string {
	s := "oh"

	for _, x := range []struct {
		on bool
		s  string
	}{{l.version, "-v"}, {l.i, "-i"}, {l.m, "-m"}, {l.command != "", "-c " + strconv.Quote(l.command)}, {l.name != "", l.name}, {l.script != "", strconv.Quote(l.script)}} {
		if x.on {
			s += " " + x.s
		}
	}

	for _, a := range l.args {
		s += " " + strconv.Quote(a)
	}

	if l.tty {
		s += " on a terminal"
	}

	return s
}

const invoked = "/usr/bin/oh"

func checkC28(c *Check) {
	var lines []cmdLine

	odd := []string{"script.oh", "/a/b c.oh", "a;b", "x\"y'z", "$HOME/*.oh", "~/x", "a\\b", "a\nb", "é\x01\xff", "# c", "{x}", "(x)", "`x`", "a:", "-", "a[1]?", "&|<>"}
	for i, p := range odd {
		lines = append(lines, cmdLine{script: p, args: [][]string{nil, {"a"}, {"a b", "*", "$x"}}[i%3], tty: i%2 == 0})
	}

	for b := 0; b < 8; b++ {
		tty, i, m := b&1 != 0, b&2 != 0, b&4 != 0
		lines = append(lines,
			cmdLine{tty: tty, i: i, m: m},
			cmdLine{tty: tty, i: i, m: m, args: []string{"p", "q r"}},
			cmdLine{tty: tty, m: m, command: "echo 1"},
			cmdLine{tty: tty, m: m, command: "echo $1; x | y", name: "N", args: []string{"p", "*"}},
			cmdLine{tty: tty, m: m, script: "s.oh", args: []string{"1", "2"}},
		)
	}

	lines = append(lines, cmdLine{version: true}, cmdLine{version: true, tty: true})

	for _, l := range lines {
		for _, mode := range []string{"one", "three", "two", "error", "incomplete"} {
			if l.command == "" && l.script == "" && mode != "one" {
				continue
			}

			c.entryPoint(l, mode)
		}
	}

	c.parameters()
}

func texts2(st *State, ss ...string) Val {
	str := types.Typ[types.String]
	o := st.alloc(str, "texts")

	for i, x := range ss {
		st.storeAt(o, fmt.Sprintf("[%d]", i), cStr(x), str)
	}

	return &Slice{Root: o, Len: len(ss), Cap: len(ss)}
}

func (c *Check) texts(in *Interp, st *State, v Val) (r []string, ok bool) {
	s, ok := st.norm(v).(*Slice)
	if !ok {
		return nil, isNil(st.norm(v))
	}

	for _, e := range in.elems(st, s, types.Typ[types.String]) {
		x, ok := asStr(st.norm(e))
		if !ok {
			return nil, false
		}

		r = append(r, x)
	}

	return r, true
}

// entryPoint evaluates the whole program for one command line.
func (c *Check) entryPoint(l cmdLine, mode string) {
	on := l.String()
	if mode != "one" {
		on += ", which reads as: " + mode
	}

	c.guard("command-line", on, func() {
		p := c.P
		s := newSim(c, "")
		in := s.in
		foldPaths(in)
		in.MaxVisit = 12

		str := types.Typ[types.String]
		anyT := types.Universe.Lookup("any").Type()
		cell := p.typ("internal/common/interface/cell", "I")
		st := s.st0.clone()

		// The command line.
		argv := append([]string{invoked}, "ARGV")

		for _, q := range p.SSA.AllPackages() {
			if q.Pkg.Path() == "os" {
				st.storeAt(in.globalPtr(q.Var("Args")).(*Ptr).Root, "", texts2(st, argv...), types.NewSlice(str))
			}
		}

		opts := map[string]any{"--command": l.command, "NAME": l.name, "SCRIPT": l.script, "ARGUMENTS": l.args, "--interactive": l.i, "--monitor": l.m, "--version": l.version, "--stdin": false, "--help": false}

		get := func(st *State, k string) (Val, bool) {
			switch v := opts[k].(type) {
			case string:
				return cStr(v), v != ""
			case bool:
				return cBool(v), true
			case []string:
				return texts2(st, v...), true
			}

			return nil, false
		}

		parse := func(cc *CallCtx) ([]Out, bool) {
			id := cc.St.fresh()
			mo := &MapObj{}

			for _, k := range sorted(opts) {
				mo.Keys = append(mo.Keys, cStr(k))

				v, set := get(cc.St, k)
				if !set && opts[k] == "" {
					mo.Vals = append(mo.Vals, Nil{})

					continue
				}

				var t types.Type = str

				switch opts[k].(type) {
				case bool:
					t = types.Typ[types.Bool]
				case []string:
					t = types.NewSlice(str)
				}

				mo.Vals = append(mo.Vals, &Iface{t, v})
			}

			cc.St.maps[id] = mo

			return ret(cc.St, Tuple{&MapV{id}, Nil{}}), true
		}

		const docopt = "github.com/docopt/docopt-go."
		in.Hooks[docopt+"ParseDoc"] = parse
		in.Hooks[docopt+"ParseArgs"] = parse
		in.Hooks["(*"+docopt+"Parser).ParseArgs"] = parse

		for _, n := range []string{"String", "Bool"} {
			n := n
			in.Hooks["("+docopt+"Opts)."+n] = func(cc *CallCtx) ([]Out, bool) {
				k, ok := asStr(cc.Args[1])
				if !ok {
					return nil, false
				}

				_, known := opts[k]
				v, set := get(cc.St, k)

				e := T(types.Universe.Lookup("error").Type(), "no-option")
				nonNil(cc.St, e)

				if known && set {
					return ret(cc.St, Tuple{v, Nil{}}), true
				}

				z := Val(cStr(""))
				if n == "Bool" {
					z = cBool(false)
				}

				return ret(cc.St, Tuple{z, e}), true
			}
		}

		in.Hooks["github.com/mattn/go-isatty.IsTerminal"] = func(cc *CallCtx) ([]Out, bool) {
			return ret(cc.St, cBool(l.tty)), true
		}
		in.Hooks["github.com/michaelmacinnis/adapted.CanonicalString"] = func(cc *CallCtx) ([]Out, bool) {
			x, ok := asStr(cc.St.norm(cc.Args[0]))
			if !ok {
				return nil, false
			}

			return ret(cc.St, cStr(canonical(x))), true
		}

		log := func(kind string) func(cc *CallCtx) ([]Out, bool) {
			return func(cc *CallCtx) ([]Out, bool) {
				v := cc.freshRes(kind)
				cc.St.event("entry", kind, cc.From, cc.Pos, v, cc.Args...)

				return ret(cc.St, v), true
			}
		}

		in.Hooks["internal/engine.Boot"] = log("boot")
		in.Hooks["internal/engine.Evaluate"] = log("evaluate")
		in.Hooks["internal/engine.System"] = log("system")
		in.Hooks["internal/system/job.New"] = log("job")
		in.Hooks["internal/system/process.Group"] = log("group")
		in.Hooks["internal/system/process.RestoreForegroundGroup"] = log("restore")
		in.Hooks["internal/reader.New"] = func(cc *CallCtx) ([]Out, bool) {
			v := cc.freshRes("reader")
			nonNil(cc.St, v)

			return ret(cc.St, v), true
		}

		begin := func(cc *CallCtx) ([]Out, bool) {
			cc.St.event("entry", "interactive", cc.From, cc.Pos, nil)

			return []Out{{St: cc.St, Kind: Stop, Pos: cc.Pos, Why: "interactive", Val: Nil{}}}, true
		}
		in.Hooks["internal/system/process.BecomeForegroundGroup"] = begin
		in.Hooks["github.com/peterh/liner.NewLiner"] = begin
		in.Hooks["internal/system/cache.Populate"] = log("populate")

		rt := types.NewPointer(p.typ("internal/reader", "T"))
		rd := func(n string, h func(cc *CallCtx) ([]Out, bool)) {
			f := p.SSA.LookupMethod(rt, nil, n)
			if f == nil {
				panic(budgetError{"the reader has no method " + n})
			}

			in.Hooks[p.fname(f)] = h
		}

		total := map[string]int{"one": 1, "two": 2, "three": 3}[mode]
		nth := func(i int) Val { return T(cell, fmt.Sprintf("COMMAND%d", i)) }

		rd("Scan", func(cc *CallCtx) ([]Out, bool) {
			cc.St.event("entry", "scan", cc.From, cc.Pos, nil, cc.St.norm(cc.Args[1]))
			cc.St.User["read"] = cInt(1)

			switch mode {
			case "error":
				e := T(types.Universe.Lookup("error").Type(), "syntax-error")
				nonNil(cc.St, e)

				return ret(cc.St, Tuple{Nil{}, e}), true
			case "incomplete":
				return ret(cc.St, Tuple{Nil{}, Nil{}}), true
			}

			nonNil(cc.St, nth(0))

			return ret(cc.St, Tuple{nth(0), Nil{}}), true
		})
		rd("Next", func(cc *CallCtx) ([]Out, bool) {
			n, _ := asInt(valOr(cc.St.User["read"]))
			cc.St.User["read"] = cInt(int64(n) + 1)

			if int(n) >= total {
				return ret(cc.St, Nil{}), true
			}

			nonNil(cc.St, nth(int(n)))

			return ret(cc.St, nth(int(n))), true
		})
		rd("Close", log("close"))

		_ = anyT

		f := p.fn("", "main")
		if f == nil {
			panic(budgetError{"main not found"})
		}

		n := 0

		for _, o := range in.Call(st, f, nil, nil, 0, false) {
			if o.Kind == Trunc {
				panic(budgetError{"the program is not followed to its end"})
			}

			n++
			c.Counts["evaluations"]++
			c.entryCheck(in, o, l, mode, on, total, nth)
		}

		c.atLeast("command-line "+on, n, 1)
		c.enter(in)
	})
}

func (c *Check) entryCheck(in *Interp, o Out, l cmdLine, mode, on string, total int, nth func(int) Val) {
	by := map[string][]*Ev{}

	var order []string

	for _, e := range o.St.events() {
		if e.Kind == "entry" {
			by[e.Name] = append(by[e.Name], e)
			order = append(order, e.Name)
		}
	}

	exits := effects(o.St, "os.Exit")

	if o.Kind == Panic {
		c.fail("command-line", on, o.Pos, "raises %s", o.Why)

		return
	}

	if l.version {
		c.ob("version", on, len(by["boot"])+len(by["evaluate"])+len(by["system"])+len(by["interactive"]) == 0 && o.Kind == Ret, o.Pos, "does %v; must only print the version", order)

		return
	}

	// Start-up, once and first, with the positional parameters.
	if c.ob("boot", on, len(by["boot"]) == 1, o.Pos, "starts up %d times", len(by["boot"])) {
		b := by["boot"][0]
		script, _ := asStr(o.St.norm(b.Args[0]))
		args, ok := c.texts(in, o.St, b.Args[1])

		name := invoked
		if l.name != "" {
			name = l.name
		}

		if l.script != "" {
			name = l.script
		}

		want := append([]string{name}, l.args...)
		c.ob("parameters", on, ok && fmt.Sprintf("%q", args) == fmt.Sprintf("%q", want), b.Pos, "the positional parameters are %q; must be %q", args, want)
		c.ob("script-path", on, script == l.script, b.Pos, "the script is %q; must be %q", script, l.script)

		// Job control, as the usage text has it.
		if f := c.P.fn("internal/system/options", "Monitor"); f != nil {
			v := one(in.Call(o.St.clone(), f, nil, nil, 0, false)).Val
			want := (l.tty && l.script == "" && l.command == "") != l.m
			b, known := asBool(v)
			c.ob("job-control", on, known && b == want, f.Pos(), "job control is %s; must be %v", show(v), want)
		} else {
			c.undecided("job-control", on, "options.Monitor not found")
		}

		first := len(order) > 0 && order[0] == "boot"
		c.ob("boot-first", on, first, b.Pos, "does %v; must start up first", order)
	}

	if l.script == "" && l.command == "" {
		inter := l.tty != l.i
		c.ob("interactive", on, (len(by["interactive"]) > 0) == inter, o.Pos, "becomes interactive: %v; must be %v", len(by["interactive"]) > 0, inter)
		c.ob("nothing-run", on, len(by["evaluate"])+len(by["scan"]) == 0, o.Pos, "runs something: %v", order)

		return
	}

	c.ob("not-interactive", on, len(by["interactive"]) == 0, o.Pos, "becomes interactive")

	if !c.ob("read-once", on, len(by["scan"]) == 1, o.Pos, "reads %d texts; must read one", len(by["scan"])) {
		return
	}

	x, ok := asStr(by["scan"][0].Args[0])
	if !ok {
		c.undecided("text", on, "the text read is %s", show(by["scan"][0].Args[0]))

		return
	}

	if l.script != "" {
		words, ok := decodeWords(x)
		c.ob("text", on, ok && len(words) == 2 && words[0] == "usource" && words[1] == "'"+l.script, by["scan"][0].Pos, "reads %q, which is the words %q; must be source with the path, quoted", x, words)
	} else {
		c.ob("text", on, x == l.command+"\n", by["scan"][0].Pos, "reads %q; must be the command", x)
	}

	if total == 0 {
		bad := o.Kind == Stop && len(exits) == 1
		if bad {
			n, known := asInt(o.St.norm(exits[0].Args[0]))
			bad = known && n != 0
		}

		c.ob("cannot-read", on, bad && len(by["evaluate"]) == 0, o.Pos, "%s after running %d commands; must exit with a failure", o.Kind, len(by["evaluate"]))

		return
	}

	ev := by["evaluate"]
	same := len(ev) == total

	var got []string

	for i, e := range ev {
		v := o.St.norm(e.Args[1])
		got = append(got, show(v))
		same = same && v.Key() == nth(i).Key()
	}

	c.ob("run-all", on, same, o.Pos, "runs %v; must run each of the %d commands once, in order", got, total)
	c.ob("ends", on, o.Kind == Ret && len(exits) == 0, o.Pos, "%s %s", o.Kind, o.Why)
}

// canonical writes a text in the form $'...', with every other character
// escaped: any text that decodes to it will do.
func canonical(s string) string {
	r := "$'"
	for i := 0; i < len(s); i++ {
		r += fmt.Sprintf("\\x%02x", s[i])
	}

	return r + "'"
}

// decodeWords reads a line of words: 'text when quoted, else u and the text.
func decodeWords(s string) (ws []string, ok bool) {
	s = strings.TrimSuffix(s, "\n")

	for {
		s = strings.TrimLeft(s, " \t")
		if s == "" {
			return ws, true
		}

		switch {
		case strings.HasPrefix(s, "$'"):
			v := ""
			i := 2

			for i < len(s) && s[i] != '\'' {
				if s[i] != '\\' {
					v += s[i : i+1]
					i++

					continue
				}

				r, w, ok := unescape(s[i:])
				if !ok {
					return ws, false
				}

				v += r
				i += w
			}

			if i >= len(s) {
				return ws, false
			}

			ws = append(ws, "'"+v)
			s = s[i+1:]
		case s[0] == '\'':
			i := strings.IndexByte(s[1:], '\'')
			if i < 0 {
				return ws, false
			}

			ws = append(ws, "'"+s[1:i+1])
			s = s[i+2:]
		default:
			i := strings.IndexAny(s, " \t")
			if i < 0 {
				i = len(s)
			}

			if strings.ContainsAny(s[:i], "\n\"#$&'();<=>`{|}*?[~:\\") {
				return append(ws, "!"+s[:i]), false
			}

			ws = append(ws, "u"+s[:i])
			s = s[i:]
		}

		if s != "" && s[0] != ' ' && s[0] != '\t' {
			return append(ws, "!"+s), false
		}
	}
}

func unescape(s string) (string, int, bool) {
	if len(s) < 2 {
		return "", 0, false
	}

	if i := strings.IndexByte(`abfnrtv\'"`, s[1]); i >= 0 {
		return "\a\b\f\n\r\t\v\\'\""[i : i+1], 2, true
	}

	n := map[byte]int{'x': 2, 'u': 4, 'U': 8}[s[1]]
	if n == 0 || len(s) < 2+n {
		return "", 0, false
	}

	x, err := strconv.ParseUint(s[2:2+n], 16, 32)
	if err != nil {
		return "", 0, false
	}

	if n == 2 {
		return string([]byte{byte(x)}), 4, true
	}

	return string(utf8.AppendRune(nil, rune(x))), 2 + n, true
}

// parameters evaluates start-up for what the positional parameters become.
func (c *Check) parameters() {
	p := c.P

	for _, args := range [][]string{{"N"}, {"N", "a"}, {"N", "a b", "*", "$x"}, {"N", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"}} {
		for _, script := range []string{"", "/d/s.oh", "rel/s.oh"} {
			on := fmt.Sprintf("started with script %q and %q", script, args)

			c.guard("positional", on, func() {
				m := mustMachine(p)
				s := newSim(c, "internal/engine")
				in := s.in
				foldPaths(in)
				internIn(in, m)
				in.MaxVisit = 16

				str := types.Typ[types.String]
				in.Hooks["internal/system/job.Monitor"] = func(cc *CallCtx) ([]Out, bool) { return ret(cc.St, Tuple{}), true }
				in.Hooks["internal/system/job.Job"] = func(cc *CallCtx) ([]Out, bool) { return ret(cc.St, cc.freshRes("job")), true }
				in.Hooks["internal/engine/boot.Script"] = func(cc *CallCtx) ([]Out, bool) { return ret(cc.St, cStr("")), true }
				in.Hooks["internal/reader.New"] = func(cc *CallCtx) ([]Out, bool) {
					v := cc.freshRes("reader")
					nonNil(cc.St, v)

					return ret(cc.St, v), true
				}

				rt := types.NewPointer(p.typ("internal/reader", "T"))
				for _, n := range []string{"Scan", "Next"} {
					f := p.SSA.LookupMethod(rt, nil, n)
					if f == nil {
						panic(budgetError{"the reader has no method " + n})
					}

					in.Hooks[p.fname(f)] = func(cc *CallCtx) ([]Out, bool) {
						if _, ok := cc.Res.(*types.Tuple); ok {
							return ret(cc.St, Tuple{Nil{}, Nil{}}), true
						}

						return ret(cc.St, Nil{}), true
					}
				}

				in.Hooks["strings.SplitAfter"] = func(cc *CallCtx) ([]Out, bool) { return ret(cc.St, texts2(cc.St, "")), true }
				in.Hooks["path/filepath.Abs"] = func(cc *CallCtx) ([]Out, bool) {
					return ret(cc.St, Tuple{T(str, "abs", cc.St.norm(cc.Args[0])), Nil{}}), true
				}
				in.Hooks["path/filepath.Dir"] = func(cc *CallCtx) ([]Out, bool) {
					return ret(cc.St, T(str, "dir", cc.St.norm(cc.Args[0]))), true
				}
				in.Hooks["os.Getwd"] = func(cc *CallCtx) ([]Out, bool) { return ret(cc.St, Tuple{T(str, "CWD"), Nil{}}), true }
				in.Hooks["strconv.Itoa"] = func(cc *CallCtx) ([]Out, bool) {
					n, ok := asInt(cc.Args[0])

					return ret(cc.St, cStr(strconv.Itoa(int(n)))), ok
				}

				f := p.fn("internal/engine", "Boot")
				if f == nil {
					panic(budgetError{"engine.Boot not found"})
				}

				st := s.st0.clone()
				n := 0

				for _, o := range in.Call(st, f, []Val{cStr(script), texts2(st, args...)}, nil, 0, false) {
					if o.Kind != Ret {
						c.fail("positional", on, o.Pos, "%s %s", o.Kind, o.Why)

						continue
					}

					n++

					word := func(name string) string {
						v := c.variable(m, o.St, name)
						if v == nil {
							return "nothing"
						}

						t := textOf(o.St, v)

						x, ok := asStr(t)
						if !ok {
							return show(t)
						}

						if i, ok := v.(*Iface); ok && strings.HasSuffix(tstr(i.T), "type/str.T") {
							return "'" + x
						}

						return "u" + x
					}

					for i, a := range args {
						c.ob("positional", on, word(strconv.Itoa(i)) == "'"+a, f.Pos(), "$%d is %s; must be the text %q, quoted", i, word(strconv.Itoa(i)), a)
					}

					c.ob("positional", on, word(strconv.Itoa(len(args))) == "nothing", f.Pos(), "$%d is %s; there is no such argument", len(args), word(strconv.Itoa(len(args))))

					v := c.variable(m, o.St, "@")
					if v == nil {
						c.fail("positional", on, f.Pos(), "$@ is not defined")

						continue
					}

					got := m.wordsOf(o.St, v)

					var want []string
					for _, a := range args[1:] {
						want = append(want, "'"+a)
					}

					c.ob("positional", on, fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), f.Pos(), "$@ is %q; must be %q", got, want)

					origin := show(T(str, "abs", cStr("")))
					if script != "" {
						origin = show(T(str, "abs", T(str, "dir", cStr(script))))
					}

					c.ob("origin", on, word("ORIGIN") == origin, f.Pos(), "$ORIGIN is %s; must be the directory of the script, %s", word("ORIGIN"), origin)

					for _, k := range []string{"PWD", "OLDPWD"} {
						c.ob("start-directory", on, word(k) == show(T(str, "CWD")), token.NoPos, "$%s is %s; must be the directory the shell is started in", k, word(k))
					}
				}

				c.atLeast("positional", n, 1)
				c.enter(in)
			})
		}
	}
}
