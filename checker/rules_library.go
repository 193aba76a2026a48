package main

import (
	"fmt"
	"strings"
)

func init() {
	rules["C30"] = rule{
		explain: "The definitions of source, import and module in the start-up script are interpreted abstractly, with files whose commands may yield values or throw, named modules and unnamed ones, several importers at once under every interleaving, and imports after failed ones. The scope eval evaluates in, what exists answers, and the methods conduits are read by are decided from the Go source. Which commands of a file run, how often, in which scope and order, what the importer gets, and that the service behind import stays ready, are compared with the meaning.",
		assume:  []string{"the primitives the script uses mean what the evaluator's own properties (C02, C03, C10, C13, C20, C21) establish; the reader builds from text what the grammar says (C17)"},
		run:     checkC30,
	}
	rules["C31"] = rule{
		explain: "The library commands of the start-up script are interpreted abstractly on every list of operands up to a bound, with called methods free to yield or throw, and compared with their meaning: value, order of calls, scope of evaluation, errors, and that no variable of the caller is hidden by one of theirs.",
		assume:  []string{"the primitives the script uses mean what the evaluator's own properties (C02, C03, C13, C14, C15, C20) establish; the reader builds from the text of the script what the grammar says (C17)"},
		run:     checkC31,
	}
}

// file puts a script in the file system.
func (w *lworld) file(path, text string) {
	cmds, err := lparse(text)
	if err != nil {
		panic(lgiveup(err.Error()))
	}

	w.fs[path] = "file"
	w.content[path] = cmds
}

// what records what happens, one event after the other.
func (w *lworld) what() string {
	var got []string

	for _, e := range w.since("result", "begin", "caught", "write", "program", "cd") {
		switch {
		case e.what == "write":
			n := e.obj.name
			if e.obj.kind != "std" {
				n = e.obj.path
			}

			got = append(got, n+" "+lshow(e.v))
		case e.what == "begin":
			got = append(got, e.name)
		default:
			got = append(got, strings.TrimSpace(e.what+" "+strings.TrimSpace(e.name+" "+lshow(e.v))))
		}
	}

	return strings.Join(got, "; ")
}

// expect follows a text that can go one way only, apart from the schedule.
func (b *bootScript) expect(rule, text, want string, setup func(w *lworld)) {
	b.explore(rule, text, text+"\n", func(w *lworld) {
		w.probe("p", lbehave{v: lsym("V")})
		w.native("throws", func(t *ltask, args lv) lv { return t.raise(lcar(args)) })

		if setup != nil {
			setup(w)
		}
	}, func(w *lworld, main *ltask) string {
		got := w.what()
		for _, x := range strings.Split(want, " | ") {
			if got == x {
				return w.idle()
			}
		}

		return fmt.Sprintf("what happens is %q, must be %q", got, want)
	})
}

func checkC30(c *Check) {
	b := c.bootScript("script")
	if b == nil {
		return
	}

	checkEvalScope(c, "eval")
	c.existsBuiltin(newKit(c))
	c.conduitMethods(newKit(c))

	scripts := func(w *lworld) {
		w.file("f", "result f1\ndefine x 1\nresult f2\nlist v\n")
		w.file("set", "set y 2\nlist $y $z\n")
		w.file("empty", "")
		w.file("one", "list only\n")
		w.file("bad", "result b1\nthrow problem\nresult b2\n")
		w.file("/lib/g", "result g\nlist g\n")
		w.file("/lib2/g", "result wrong\n")
		w.file("/lib2/h", "result h\n")
		w.file("m", "result m\ndefine hidden 2\nexport x: method () {\n return (sub $hidden 1)\n}\n")
		w.file("n", "module the-name\nresult n\nexport x: method () {\n return 1\n}\n")
		w.file("n2", "module the-name\nresult n2\n")
		w.file("o", "result o-before\nmodule other\nresult o\nexport y: method () {\n return 3\n}\n")
		w.file("late", "module lost\nresult late\nthrow problem\n")
		w.globs["on*"] = []string{"one"}
		w.globs["f*"] = []string{"f", "fff"}
	}

	for _, s := range []struct{ text, want string }{
		{"result (source f)\nresult $x", "result (f1); result (f2); result ((v)); result (1)"},
		{"result (source empty)", "result (())"},
		{"result (source one)", "result ((only))"},
		{"result (source on*)", "result ((only))"},
		{"result (source 'f')", "result (f1); result (f2); result ((v))"},
		// The commands see and change the caller's variables.
		{"define run: method () {\n define y 1\n define z 3\n result (source set)\n result $y\n}\nrun", "result ((2 3)); result (2)"},
		{"define run: method () {\n source f\n result $x\n}\nrun\nresult (resolves? x)", "result (f1); result (f2); result (1); result (())"},
		{"define run: method () {\n catch ex {\n  return (caught $ex)\n }\n source bad\n result no\n}\nrun\np", "result (b1); caught (problem); p"},
		// A relative name not found is looked for along OHPATH.
		{"export OHPATH /lib:/lib2\nresult (source g)", "result (g); result ((g))"},
		{"export OHPATH /lib:/lib2\nsource h", "result (h)"},
		{"export OHPATH /lib\nresult (source one)", "result ((only))"},
		{"define run: method () {\n catch ex {\n  return (p)\n }\n source nowhere\n result no\n}\nrun", "p"},
		{"define run: method () {\n catch ex {\n  return (p)\n }\n export OHPATH /lib:/lib2\n source nowhere\n result no\n}\nrun", "p"},
		{"define run: method () {\n catch ex {\n  return (p)\n }\n source f*\n result no\n}\nrun", "p"},

		{"define o: import m\nresult (o x)\nresult (o hidden)", "result (m); result (1); stderr 'error: 'hidden' not defined'"},
		{"define o: import m\nresult (resolves? x) (resolves? hidden)", "result (m); result (() ())"},
		{"define o: import m\ndefine q: import m\nresult (equal? $o $q)", "result (m); result (m); result (())"},
		{"define o: import n\ndefine q: import n\nresult (equal? $o $q) (q x)", "result (n); result (true 1)"},
		{"define o: import n\ndefine q: import n2\nresult (equal? $o $q) (q x)", "result (n); result (true 1)"},
		{"define o: import o\ndefine q: import o\nresult (equal? $o $q) (q y)", "result (o-before); result (o); result (o-before); result (true 3)"},
		{"define o: import n\ndefine q: import o\nresult (equal? $o $q) (o x) (q y)", "result (n); result (o-before); result (o); result (() 1 3)"},
		{"define run: method () {\n catch ex {\n  return (caught $ex)\n }\n import bad\n result no\n}\nrun\ndefine o: import m\nresult (o x)", "result (b1); caught (problem); result (m); result (1)"},
		{"define run: method () {\n catch ex {\n  return (caught $ex)\n }\n import late\n result no\n}\nrun\nrun", "result (late); caught (problem); result (late); caught (problem)"},
		{"define run: method () {\n catch ex {\n  return (p)\n }\n import nowhere\n result no\n}\nrun\ndefine o: import m\nresult (o x)", "p; result (m); result (1)"},
		{"define run: method () {\n define o: import m\n result (o x)\n}\nrun\nrun", "result (m); result (1); result (m); result (1)"},
		{"module x\nresult yes", "result (yes)"},
		{"result ((import m) x)", "result (m); result (1)"},
		{"export OHPATH /lib:/lib2\ndefine o: import h\nresult (object? $o)", "result (h); result (true)"},
	} {
		b.expect("import", s.text, s.want, scripts)
	}

	// Every short history of imports.
	type kind struct{ before, name, after, ends string }

	kinds := map[string]kind{
		"m": {"result (m)", "", "", "object"}, "n": {"", "the-name", "result (n)", "object"}, "n2": {"", "the-name", "result (n2)", "last"},
		"o": {"result (o-before)", "other", "result (o)", "object"}, "bad": {"result (b1)", "", "", "throws"}, "late": {"", "lost", "result (late)", "throws"},
	}
	names := []string{"m", "n", "n2", "o", "bad", "late"}

	length := 3
	if b.c.Tier == "thorough" {
		length = 4
	}

	total := 1
	for i := 0; i < length; i++ {
		total *= len(names)
	}

	for h := 0; h < total; h++ {
		text := "define try: method (name) {\n catch ex {\n  return failed\n }\n import $name\n}\n"
		made := map[string]int{}

		var want []string

		var got []int // who made what each import yields; 0 if it fails

		for i, x := 0, h; i < length; i, x = i+1, x/len(names) {
			n := names[x%len(names)]
			k := kinds[n]
			text += fmt.Sprintf("define i%d: try %s\n", i, n)

			if k.before != "" {
				want = append(want, k.before)
			}

			if who := made[k.name]; k.name != "" && who > 0 {
				got = append(got, who)

				continue
			}

			if k.after != "" {
				want = append(want, k.after)
			}

			if k.ends == "throws" {
				got = append(got, 0)

				continue
			}

			got = append(got, i+1)

			if k.name != "" {
				made[k.name] = i + 1
			}
		}

		var ask, same []string

		for i := range got {
			for j := 0; j < i; j++ {
				ask = append(ask, fmt.Sprintf("(equal? $i%d $i%d)", i, j))

				if got[i] == got[j] {
					same = append(same, "true")
				} else {
					same = append(same, "()")
				}
			}
		}

		text += "result " + strings.Join(ask, " ")
		want = append(want, "result ("+strings.Join(same, " ")+")")

		b.expect("import-history", text, strings.Join(want, "; "), scripts)
	}

	// Several tasks import at once; a named module is made once.
	for _, name := range []string{"n", "m"} {
		text := "define c: chan 3\nspawn {\n c write (import " + name + ")\n}\nspawn {\n c write (import " + name + ")\n}\nc write (import " + name + ")\ndefine x: c read\ndefine y: c read\ndefine z: c read\nresult (equal? $x $y $z) (x x) (y x) (z x)"
		runs, same := 3, "()"

		if name == "n" {
			runs, same = 1, "true"
		}

		b.explore("import-at-once", name, text+"\n", scripts, func(w *lworld, main *ltask) string {
			n := 0

			for _, e := range w.since("result") {
				if lshow(e.v) == "("+name+")" {
					n++
				} else if lshow(e.v) != "("+same+" 1 1 1)" {
					return "the result is " + lshow(e.v)
				}
			}

			if n != runs {
				return fmt.Sprintf("the file is run %d times", n)
			}

			if main.died != "" {
				return "throws " + main.died
			}

			return w.idle()
		})
	}

	b.explore("import-at-once", "one that fails", "define c: chan 3\ndefine try: method (name) {\n catch ex {\n  c write $ex\n  return ()\n }\n define o: import $name\n c write (o x)\n}\nspawn {\n try bad\n}\nspawn {\n try n\n}\ntry n\nresult (list (c read) (c read) (c read))\n", scripts, func(w *lworld, main *ltask) string {
		es := w.since("result")

		var l []string

		for _, e := range es {
			l = append(l, lshow(e.v))
		}

		s := l[len(l)-1]
		if len(l) != 3 || strings.Count(s, "1") != 2 || strings.Count(s, "problem") != 1 {
			return strings.Join(l, "; ")
		}

		return w.idle()
	})

	b.flush()
	c.atLeast("script", b.seen, 25)
}

func checkC31(c *Check) {
	b := c.bootScript("script")
	if b == nil {
		return
	}

	max := 4
	if c.Tier == "thorough" {
		max = 9
	}

	for n := 0; n <= max; n++ {
		var as, seq, mapped, calls []string

		for i := 0; i < n; i++ {
			as = append(as, fmt.Sprintf("a%d", i))
			seq = append(seq, fmt.Sprint(i))
			mapped = append(mapped, fmt.Sprintf("(a%d x)", i))
			calls = append(calls, "p")
		}

		args := strings.Join(as, " ")
		list := strings.TrimSpace("list " + args)
		pre := ""

		if n > 0 {
			pre = strings.Join(calls, "; ") + "; "
		}

		b.expect("library", "result ("+list+")", "result (("+args+"))", nil)
		b.expect("library", fmt.Sprintf("result (seq %d)", n), "result (("+strings.Join(seq, " ")+"))", nil)
		b.expect("library", "define run: method () {\n define y x\n result (for ("+list+") (method (v) {\n  p $v\n  list $v $y\n }))\n}\nrun", pre+"result (("+strings.Join(mapped, " ")+"))", nil)

		if n > 0 {
			b.expect("library", "define run: method () {\n catch ex {\n  return (caught $ex)\n }\n for ("+list+") (method (v) {\n  p $v\n  if (eq? $v "+as[n-1]+") {\n   throw bad\n  }\n })\n}\nrun", pre+"caught (bad)", nil)
			b.expect("library", "result (quote ("+args+"))", "result (("+args+"))", nil)
			b.expect("library", "define v x\nresult (quasiquote (k "+args+" (unquote $v)))", "result ((k "+args+" x))", nil)
			b.expect("library", "write "+args, "stdout ("+args+")", nil)
			b.expect("library", "error "+args, "stderr '"+args+"'", nil)
			b.expect("library", "write-line "+args, "stdout '"+args+"'", nil)
		}

		b.comparisons(n)
	}

	for _, s := range []struct{ text, want string }{
		// Defaults.
		{"define x 1\nresult (coalesce x y z)", "result (1)"},
		{"define y 2\nresult (coalesce x y z)", "result (2)"},
		{"result (coalesce x y z)", "result (z)"},
		{"result (coalesce z)", "result (z)"},
		{"define x ()\nresult (coalesce x y)", "result (())"},
		{"define run: method () {\n define x local\n result (coalesce x y)\n}\nrun", "result (local)"},

		// Objects and maps.
		{"define o: object {\n export x: method () {\n  return $y\n }\n define y 2\n}\nresult (o x)\no y", "result (2); stderr 'error: 'y' not defined'"},
		{"define run: method (v) {\n object {\n  export x: method () {\n   list $v\n  }\n }\n}\ndefine a: run 1\ndefine b: run 2\nresult (a x) (b x) (a x)", "result ((1) (2) (1))"},
		{"define o: object {\n define n 1\n export inc: method () {\n  set n: add $n 1\n }\n}\no inc\no inc\nresult (o inc)", "result (4)"},
		{"define o: object {\n export who: method s () {\n  return $s\n }\n}\nresult (equal? $o (o who))", "result (true)"},
		{"define m: map\nresult (m has a)\nm set a 1\nresult (m has a) (m get a)\nm set a 2\nresult (m get a)\nm del a\nresult (m has a)", "result (()); result (true 1); result (2); result (())"},
		{"define m: map\ndefine n: map\nm set a 1\nresult (n has a)", "result (())"},
		{"define m: map\nm set a 1\nm set b 2\nresult (m get a) (m get b)", "result (1 2)"},
		{"define run: method () {\n catch ex {\n  return (p)\n }\n define m: map\n m get a\n result no\n}\nrun", "p"},

		// Quasi-quotation.
		{"define x 1\nresult (quasiquote (a (b (unquote $x)) (unquote (list $x 2))))", "result ((a (b 1) (1 2)))"},
		{"define run: method () {\n define x 1\n result (quasiquote (unquote $x))\n}\nrun", "result (1)"},
		{"result (quasiquote a)", "result (a)"},
		{"result (quasiquote ())", "result (())"},
		{"result (quote a)", "result (a)"},
		{"define x 1\nresult (quote ($x (p)))", "result (((resolve x) (p)))"},

		// Streams.
		{"define a: chan 3\na write 1\na write 2 3\nresult (a read)\nresult (a read-list)", "result (1); result ((2 3))"},
		{"block {\n write 1\n write 2\n} | block {\n result (read)\n result (read)\n}", "result (1); result (2)"},
		{"block {\n write 1 2\n write 3\n} | mill (x (y)) {\n result $x $y\n}", "result (1 (2)); result (3 ())"},
		{"define z 7\nblock {\n write 1\n write 2\n} | mill (x) {\n result $x $z\n}", "result (1 7); result (2 7)"},
		{"block {\n write 1\n} | block {\n mill (x) {\n  result $x\n }\n result done\n}", "result (1); result (done)"},
		{"block {\n list\n} | block {\n result (mill (x) {\n  result $x\n })\n}", "result (())"},
		{"define run: method () {\n catch ex {\n  return (caught $ex)\n }\n block {\n  write 1\n  write 2\n } | mill (x) {\n  throw $x\n }\n}\nrun", "caught (1)"},
		{"here 'a'", "stdout 'a'"},
		{"here $'\\na\\nb\\n'", "stdout 'a\nb'"},
		{"here $'\\n\\na\\n\\n'", "stdout '\na\n'"},
		{"here ''", "stdout ''"},
		{"block {\n here text\n} >| f\nresult x", "f 'text'; result (x)"},

		// Macros.
		{"fn twice {\n p $1\n p $1\n}\ntwice x", "p; p"},
		{"fn rev {\n list $2 $1\n}\nresult (rev a b)", "result ((b a))"},
		{"fn all {\n list (splice $@)\n}\nresult (all a b c)", "result ((a b c))"},
		{"fn none {\n result yes\n}\nnone", "result (yes)"},
		{"define run: method () {\n define v 5\n fn show {\n  result $1\n }\n show $v\n}\nrun", "result (5)"},

		// Up the directories.
		{"result (... . x)", "cd (.); result (/pwd/x)"},
	} {
		b.expect("library", s.text, s.want, func(w *lworld) {
			w.fs["/pwd/x"] = "file"
		})
	}

	b.prompts()

	for _, s := range []struct{ call, want string }{
		{"for (list $V) (method (q) {\n list $q $V\n})", "((mine mine))"},
		{"eq? $V mine", "true"},
		{"ne? $V mine", "()"},
		{"list $V", "(mine)"},
		{"quasiquote (a (unquote $V))", "(a mine)"},
		{"coalesce not-there $V", "mine"},
		{"object {\n result2 $V\n}", "*"},
	} {
		for _, n := range b.localNames() {
			text := "define run: method () {\n define " + n + " mine\n result (" + strings.ReplaceAll(s.call, "$V", "$"+n) + ")\n}\nrun\n"

			b.explore("variables", strings.SplitN(s.call, " ", 2)[0]+" with a variable named "+n, text, func(w *lworld) {
				w.native("result2", func(t *ltask, args lv) lv {
					w.event(t, levent{what: "result2", v: args})

					return lNull
				})
			}, func(w *lworld, main *ltask) string {
				es := w.since("result")
				if len(es) != 1 || main.died != "" {
					return levents(es) + main.died
				}

				if s.want == "*" {
					es = w.since("result2")
					if len(es) == 1 && lshow(es[0].v) == "(mine)" {
						return ""
					}
				} else if lshow(es[0].v) == "("+s.want+")" {
					return ""
				}

				return levents(es)
			})
		}
	}

	b.flush()
	c.atLeast("script", b.seen, 100)
}

// comparisons compares texts.
func (b *bootScript) comparisons(n int) {
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, fmt.Sprintf("(t%d)", i))
	}

	for _, op := range []string{"eq?", "ne?"} {
		text := "define run: method () {\n catch ex {\n  return (p)\n }\n result (" + op + " " + strings.Join(args, " ") + ")\n}\nrun\n"

		b.explore("comparison", fmt.Sprintf("%s of %d texts", op, n), text, func(w *lworld) {
			w.probe("p", lbehave{v: lsym("V")})

			for i := 0; i < n; i++ {
				w.native(fmt.Sprintf("t%d", i), func(t *ltask, args lv) lv {
					v := []lv{lsym("a"), lstr("a"), lstr("b")}[w.x.choose(3, fmt.Sprintf("t%d", i))]
					w.event(t, levent{what: "text", v: v})

					return v
				})
			}
		}, func(w *lworld, main *ltask) string {
			ts := w.since("text")
			same := true

			for _, e := range ts {
				if ltext(e.v) != ltext(ts[0].v) {
					same = false
				}
			}

			want := "result (" + lshow(lbool(same == (op == "eq?"))) + ")"
			if n < 2 {
				want = "p"
			}

			if got := w.what(); got != want {
				return fmt.Sprintf("what happens is %s, must be %s", got, want)
			}

			return ""
		})
	}
}

// prompts checks the service that makes prompts.
func (b *bootScript) prompts() {
	host := func(w *lworld) {
		w.programs["hostname"] = func(t *ltask, args lv) lv {
			t.valueOf(nil, "stdout").(*lconduit).put(t, lstr("host"))

			return lsym("true")
		}
	}

	for _, s := range []struct{ text, want string }{
		{"result (prompt '> ')", "result ('me@host:/pwd> ')"},
		{"result (prompt '> ')\nresult (prompt '# ')", "result ('me@host:/pwd> '); result ('me@host:/pwd# ')"},
		{"replace-make-prompt (method (s) {\n list new $s\n})\nresult (prompt x)", "result ((new x))"},
		{"define old: replace-make-prompt (method (s) {\n list new $s\n})\nresult (old x)", "result ('me@host:/pwdx')"},
		{"define run: method () {\n replace-make-prompt (method (s) {\n  throw bad\n })\n result (prompt x)\n result (prompt y)\n}\nrun", "result (x); result (y)"},
		{"replace-make-prompt (method (s) {\n list one $s\n})\ndefine o: replace-make-prompt (method (s) {\n list two $s\n})\nresult (prompt x) (o y)", "result ((two x) (one y))"},
	} {
		b.expect("prompt", s.text, s.want, host)
	}
}
