package main

import (
	"fmt"
	"strings"
)

func init() {
	rules["C18"] = rule{
		explain: "The definitions of and, or and not in the start-up script are interpreted abstractly, for every number of operands up to a bound, with every operand free to yield true, false or to throw, and mixed, nested, grouped, redirected and piped; which operands are evaluated, in which order and scope, and the value, are compared with the meaning of the operators. What the reader turns each operator into, and the truth the primitives see, are decided from the Go source.",
		assume:  []string{"the primitives the script uses mean what the evaluator's own properties (C02, C03, C15, C20) establish; the reader builds from the text of the script what the grammar says (C17)"},
		run:     checkC18,
	}
	rules["C29"] = rule{
		explain: "The definition of catch and of the outermost throw in the start-up script are interpreted abstractly: exceptions are thrown by a command, a builtin that fails, or a handler itself, from every kind of place a command can stand (block, loop, condition, operand, method, object, evaluated code, pipeline), under zero to three handlers that return, run on, or throw. The step that turns an operation's error into a throw, and the escape out of the handler's method, are followed through the Go source, from every context a failing command can stand in. Which handlers run, how often, in which order, with which value, and what runs afterwards are compared with the meaning.",
		assume:  []string{"the primitives the script uses mean what the evaluator's own properties (C02, C03, C20) establish; the reader builds from the text of the script what the grammar says (C17)"},
		run:     checkC29,
	}
}

// logic is an expression over commands p1, p2...
type logic struct {
	op string // p, and, or, not
	n  int
	xs []*logic
}

func (l *logic) text(op bool) string {
	var s []string
	for _, x := range l.xs {
		t := x.text(op)
		if x.op == "p" && !op {
			t = "(" + t + ")"
		}

		if x.op != "p" && op {
			t = "(" + t + ")"
		}

		s = append(s, t)
	}

	switch {
	case l.op == "p":
		return fmt.Sprintf("p%d $here", l.n)
	case l.op == "not":
		return "(not " + strings.TrimSuffix(strings.TrimPrefix("("+s[0]+")", "(("), "))") + ")"
	case op:
		return strings.Join(s, map[string]string{"and": " && ", "or": " || "}[l.op])
	}

	return "(" + l.op + " " + strings.Join(s, " ") + ")"
}

func lp(n int) *logic { return &logic{op: "p", n: n} }

// eval is the meaning: what is run, and the value.
func (l *logic) eval(w map[int]string, ran *[]string) (v lv, thrown bool) {
	switch l.op {
	case "p":
		*ran = append(*ran, fmt.Sprintf("p%d", l.n))

		switch w[l.n] {
		case "throws":
			return nil, true
		case "false":
			return lNull, false
		case "zero":
			return lnum(0), false
		}

		return lsym(fmt.Sprintf("V%d", l.n)), false
	case "not":
		v, thrown = l.xs[0].eval(w, ran)
		if thrown {
			return
		}

		return lbool(!ltrue(v)), false
	}

	v = lNull

	for _, x := range l.xs {
		v, thrown = x.eval(w, ran)
		if thrown || ltrue(v) == (l.op == "or") {
			return
		}
	}

	return
}

func checkC18(c *Check) {
	b := c.bootScript("script")
	if b == nil {
		return
	}

	max := 4
	if c.Tier == "thorough" {
		max = 7
	}

	for _, op := range []string{"and", "or"} {
		for n := 0; n <= max; n++ {
			l := &logic{op: op}
			for i := 1; i <= n; i++ {
				l.xs = append(l.xs, lp(i))
			}

			b.logic(l, strings.TrimSuffix(strings.TrimPrefix(l.text(false), "("), ")"), n)

			if n > 1 {
				b.logic(l, l.text(true), n)
			}
		}
	}

	b.logic(&logic{op: "not", xs: []*logic{lp(1)}}, "not (p1 $here)", 1)
	b.logic(&logic{op: "not", xs: []*logic{lp(1)}}, "not: p1 $here", 1)

	and := func(xs ...*logic) *logic { return &logic{op: "and", xs: xs} }
	or := func(xs ...*logic) *logic { return &logic{op: "or", xs: xs} }
	not := func(x *logic) *logic { return &logic{op: "not", xs: []*logic{x}} }

	for _, s := range []struct {
		text string
		l    *logic
		n    int
	}{
		{"p1 $here && p2 $here || p3 $here", or(and(lp(1), lp(2)), lp(3)), 3},
		{"p1 $here || p2 $here && p3 $here", or(lp(1), and(lp(2), lp(3))), 3},
		{"p1 $here && p2 $here || p3 $here && p4 $here", or(and(lp(1), lp(2)), and(lp(3), lp(4))), 4},
		{"p1 $here || p2 $here && p3 $here || p4 $here", or(lp(1), and(lp(2), lp(3)), lp(4)), 4},
		{"or (p1 $here) (p2 $here) && p3 $here", and(or(lp(1), lp(2)), lp(3)), 3},
		{"p1 $here && or (p2 $here) (p3 $here) && p4 $here", and(lp(1), or(lp(2), lp(3)), lp(4)), 4},
		{"not (p1 $here && p2 $here)", not(and(lp(1), lp(2))), 2},
		{"not (p1 $here) && p2 $here", and(not(lp(1)), lp(2)), 2},
		{"and (or (p1 $here) (p2 $here)) (not (p3 $here))", and(or(lp(1), lp(2)), not(lp(3))), 3},
		{"not (not (p1 $here))", not(not(lp(1))), 1},
		{"p1 $here &&\np2 $here", and(lp(1), lp(2)), 2},
		{"p1 $here ||\n\n p2 $here", or(lp(1), lp(2)), 2},
		{"block {\n p1 $here && p2 $here\n} || p3 $here", or(and(lp(1), lp(2)), lp(3)), 3},
	} {
		b.logic(s.l, s.text, s.n)
	}

	b.logicPlaces()

	for _, op := range []string{"&&", "||"} {
		b.logicNames(op)
	}

	b.flush()
	c.operators("operator", "&&", "||", "&")
	c.reads("grammar", append(mixed(3, "&&", "||", "|", ";", ">"), "a && N b", "a || N N b && a", "( a || b ) && a", "a _ ( b && a || b )", "a && b &")...)
	c.atLeast("script", b.seen, 30)
}

// free defines commands that yield true or false or throw.
func (w *lworld) free(n int, throws bool) {
	for i := 1; i <= n; i++ {
		name := fmt.Sprintf("p%d", i)

		w.native(name, func(t *ltask, args lv) lv {
			w.event(t, levent{what: "begin", name: name, v: args, stdout: t.valueOf(nil, "stdout")})

			k := 2
			if throws {
				k = 4
			}

			end := levent{what: "end", name: name, mode: []string{"true", "false", "throws", "zero"}[w.x.choose(k, name)]}
			w.event(t, end)

			switch end.mode {
			case "throws":
				t.raise(lstr("error of " + name))
			case "false":
				return lNull
			case "zero":
				return lnum(0)
			}

			return lsym("V" + name[1:])
		})
	}
}

func (b *bootScript) logic(l *logic, cmd string, n int) {
	text := `
define run: method () {
    catch ex {
        return (caught $ex)
    }
    define here a3
    result (` + cmd + `)
    after
}
run
after
`

	b.explore("logic", cmd, text, func(w *lworld) {
		w.free(n, true)
	}, func(w *lworld, main *ltask) string {
		var ran []string

		ways := map[int]string{}

		for _, e := range w.since("begin", "end") {
			if e.name[0] != 'p' {
				continue
			}

			if e.what == "begin" {
				ran = append(ran, e.name)

				if lshow(e.v) != "(a3)" {
					return e.name + " is passed " + lshow(e.v)
				}
			} else {
				ways[int(e.name[1]-'0')] = e.mode
			}
		}

		var want []string

		v, thrown := l.eval(ways, &want)
		if strings.Join(ran, " ") != strings.Join(want, " ") {
			return fmt.Sprintf("%v are run, must be %v", ran, want)
		}

		es := w.since("result", "caught")
		if len(es) != 1 || (es[0].what == "caught") != thrown {
			return "the outcome is " + levents(es)
		}

		if thrown {
			return ""
		}

		if lshow(es[0].v) != lshow(llist(v)) {
			return fmt.Sprintf("the value is %s, must be %s", lshow(es[0].v), lshow(llist(v)))
		}

		return w.idle()
	})
}

// logicPlaces uses the operators where they have to leave something else
// alone.
func (b *bootScript) logicPlaces() {
	for _, s := range []struct{ text, t, f string }{
		{"define m: method () {\n p1 && return yes\n return no\n}\nresult (m)", "result (yes)", "result (no)"},
		{"define m: method () {\n p1 || return yes\n return no\n}\nresult (m)", "result (no)", "result (yes)"},
		{"p1 && define x 1\nresult (resolves? x)", "result (true)", "result (())"},
		{"p1 || define x 1\nresult (resolves? x)", "result (())", "result (true)"},
		{"define x 0\np1 && set x 1\nresult $x", "result (1)", "result (0)"},
		{"if (p1 && true) {\n result yes\n} else {\n result no\n}", "result (yes)", "result (no)"},
		{"if (not (p1)) {\n result yes\n} else {\n result no\n}", "result (no)", "result (yes)"},
		{"define o: object {\n export m: method () {\n  p1 && result x\n }\n}\no m", "result (x)", ""},
		{"define o: object {\n p1 && export x 1\n}\nresult (o set? x)", "result (true)", "result (())"},
		{"p1 && p1x | block {\n result y\n}", "result (y)", ""},
		{"p1; result x", "result (x)", "result (x)"},
		{"block {\n p1; result x\n} && result y", "result (x); result (y)", "result (x); result (y)"},
		{"p1 && spawn {\n result x\n}", "result (x)", ""},
		{"p1 && result x &", "result (x)", ""},
		{"p1 && result (list x y) `(list z)", "result ((x y) ())|result ((x y))", ""},
	} {
		b.explore("place", s.text, s.text+"\n", func(w *lworld) {
			w.free(1, false)
			w.native("result", func(t *ltask, args lv) lv {
				w.event(t, levent{what: "result", v: args})

				return lsym("true")
			})
			w.probe("p1x", lbehave{v: lsym("V")})
		}, func(w *lworld, main *ltask) string {
			want := s.f

			for _, e := range w.since("end") {
				if e.name == "p1" && e.mode == "true" {
					want = s.t
				}
			}

			got := levents(w.since("result"))
			for _, x := range strings.Split(want, "|") {
				if got == x {
					if main.died != "" {
						return "throws " + main.died
					}

					return w.idle()
				}
			}

			return got
		})
	}
}

func (b *bootScript) logicNames(op string) {
	for _, n := range b.localNames() {
		text := "define run: method () {\n define " + n + " mine\n pl $" + n + " " + op + " pr $" + n + "\n}\nrun\n"

		b.explore("variables", op+" with a variable named "+n, text, func(w *lworld) {
			v := lv(lsym("V"))
			if op == "||" {
				v = lNull
			}

			w.probe("pl", lbehave{v: v})
			w.probe("pr", lbehave{v: v})
		}, func(w *lworld, _ *ltask) string {
			es := w.since("begin")
			if len(es) != 2 || lshow(es[0].v) != "(mine)" || lshow(es[1].v) != "(mine)" {
				return "the commands are run as " + levents(es)
			}

			return ""
		})
	}
}

// --- Exceptions.

func checkC29(c *Check) {
	checkRaised(c, "raised")

	b := c.bootScript("script")
	if b == nil {
		return
	}

	places := []struct{ name, text string }{
		{"a method", "fails"},
		{"a block", "block {\n fails\n never\n}"},
		{"a loop", "while true {\n fails\n never\n}"},
		{"a condition", "if (fails) {\n never\n} else {\n never\n}"},
		{"a loop's condition", "while (fails) {\n never\n}"},
		{"an operand", "never (fails) (never)"},
		{"a definition", "define x: fails"},
		{"a called method", "deep"},
		{"an object's method", "o deep"},
		{"an object's body", "define q: object {\n fails\n}"},
		{"evaluated code", "eval (quote (fails))"},
		{"a condition on the left", "fails && never"},
		{"a condition on the right", "true && fails && never"},
		{"a loop of the library", "for (list 1 2) (method (x) {\n fails\n never\n})"},
		{"a redirected command", "fails > f"},
		{"a pipeline", "block {\n fails\n} | quiet"},
		{"a captured command", "never `(fails)"},
		{"a handled block", "block {\n block {\n  fails\n }\n never\n}"},
		{"a syntax", "ds"},
	}

	fails := []struct{ name, def, msg string }{
		{"throw", "define fails: method () {\n throw problem\n}", "problem"},
		{"throw of a list", "define fails: method () {\n throw (list a b)\n}", "(a b)"},
		{"an error", "define fails: method () {\n add x\n}", ""},
		{"an unknown variable", "define fails: method () {\n list $not-there\n}", ""},
		{"an unknown command", "define fails: method () {\n (object {\n  define x 1\n }) no-such-member\n}", ""},
	}

	for i, p := range places {
		for j, f := range fails {
			if i > 0 && j > 0 && p.name != "a loop" && p.name != "an operand" {
				continue
			}

			b.thrown(p.name, p.text, f.name, f.def, f.msg)
		}
	}

	b.handlers()
	b.uncaught()
	b.catchNames()
	b.flush()
	c.atLeast("script", b.seen, 40)
}

func (b *bootScript) thrown(place, cmd, how, def, msg string) {
	text := def + `
define deep: method () {
    fails
    never
}
define ds: syntax () {
    fails
    never
}
define o: object {
    export deep: method () {
        fails
        never
    }
}
define run: method () {
    before
    catch ex {
        caught $ex $here
        return handled
    }
    define here a3
    ` + cmd + `
    never
}
result (run)
after
result (run)
`

	b.explore("thrown", how+" in "+place, text, func(w *lworld) {
		w.probe("never", lbehave{v: lsym("V")})
		w.probe("before", lbehave{v: lsym("V")})
		w.probe("quiet", lbehave{v: lsym("V")})
	}, func(w *lworld, main *ltask) string {
		var s []string

		for _, e := range w.since("begin", "caught", "result") {
			if e.name == "quiet" {
				continue
			}

			s = append(s, e.what+" "+e.name)

			if e.what == "caught" {
				vs := lslice(e.v)
				if len(vs) != 2 || msg != "" && lshow(vs[0]) != msg || vs[0] == lv(lNull) || lshow(vs[1]) != "a3" {
					return "the exception is " + lshow(e.v)
				}
			}

			if e.what == "result" && lshow(e.v) != "(handled)" {
				return "the value is " + lshow(e.v)
			}

			if e.what == "begin" && e.task != main {
				return "what comes next runs in another task"
			}
		}

		once := "begin before; caught ; result "
		if place == "a redirected command" {
			w.fs["f"] = ""
		}

		if got := strings.Join(s, "; "); got != once+"; begin after; "+once {
			return "what happens is " + got
		}

		if main.died != "" {
			return "throws " + main.died
		}

		return w.idle()
	})
}

// handlers nests up to three handlers, each of which returns, runs on,
// throws something else or throws the same again.
func (b *bootScript) handlers() {
	for n := 1; n <= 3; n++ {
		b.nestedHandlers(n, false)
		b.nestedHandlers(n, true)
	}
}

func (b *bootScript) nestedHandlers(n int, same bool) {
	// Handler i does one of several things when it is run.
	handler := func(i int) string {
		return fmt.Sprintf(`
    catch ex {
        caught h%d $ex
        if (ask h%d 1) {
            return h%d
        }
        if (ask h%d 2) {
            throw new%d
        }
        if (ask h%d 3) {
            throw $ex
        }
        caught end%d
    }`, i, i, i, i, i, i, i)
	}

	text := "define m0: method () {\n throw first\n}\n"

	if same {
		// All of them in one method.
		text += "define m1: method () {"
		for i := n; i > 0; i-- {
			text += handler(i)
		}

		text += "\n m0\n never\n}\n"
		text += "result (m1)\nafter\n"
	} else {
		for i := 1; i <= n; i++ {
			text += fmt.Sprintf("define m%d: method () {%s\n m%d\n went m%d\n return n%d\n}\n", i, handler(i), i-1, i, i)
		}

		text += fmt.Sprintf("result (m%d)\nafter\n", n)
	}

	b.explore("handlers", fmt.Sprintf("%d handlers, in one method %v", n, same), text, func(w *lworld) {
		chosen := map[string]int{}

		w.probe("never", lbehave{v: lsym("V")})
		w.native("went", func(t *ltask, args lv) lv {
			w.event(t, levent{what: "went", v: args})

			return lNull
		})
		w.native("ask", func(t *ltask, args lv) lv {
			h := ltext(lcar(args))
			if _, ok := chosen[h]; !ok {
				chosen[h] = w.x.choose(4, h)
				w.event(t, levent{what: "chose", name: h, mode: fmt.Sprint(chosen[h])})
			}

			return lbool(lint(lcar(lcdr(args))) == int64(chosen[h]+1))
		})
	}, func(w *lworld, main *ltask) string {
		chose := map[string]string{}
		for _, e := range w.since("chose") {
			chose[e.name] = e.mode
		}

		msg, died := "first", true
		value := ""

		var want []string

		for i := 1; i <= n; i++ {
			h := fmt.Sprintf("h%d", i)
			want = append(want, fmt.Sprintf("caught (%s %s)", h, msg))

			switch chose[h] {
			case "0":
				died, value = false, h
			case "1":
				msg = fmt.Sprintf("new%d", i)
			case "2":
			case "3":
				want = append(want, fmt.Sprintf("caught (end%d)", i))
			}

			if !died {
				// The method ends; the ones that called it go on.
				for j := i + 1; j <= n && !same; j++ {
					want = append(want, fmt.Sprintf("went (m%d)", j))
					value = fmt.Sprintf("n%d", j)
				}

				break
			}
		}

		if died {
			want = append(want, "written error: "+msg)
		} else {
			want = append(want, "result ("+value+")")
		}

		var got []string

		for _, e := range w.since("caught", "went", "result", "write") {
			if e.what != "write" {
				got = append(got, e.what+" "+lshow(e.v))
			} else if e.obj == w.std[2] {
				got = append(got, "written "+strings.Trim(strings.ReplaceAll(lshow(e.v), "'", ""), "()\n"))
			}
		}

		if len(w.since("begin")) != 1 {
			return levents(w.since("begin"))
		}

		if strings.Join(got, "; ") != strings.Join(want, "; ") {
			return fmt.Sprintf("what happens is %s, must be %s", strings.Join(got, "; "), strings.Join(want, "; "))
		}

		if (main.died != "") != died {
			return fmt.Sprintf("the command ends with %q", main.died)
		}

		return ""
	})
}

// uncaught checks what is not handled, and handlers that are not asked.
func (b *bootScript) uncaught() {
	for _, s := range []struct{ text, want string }{
		{"define m: method () {\n throw one\n result no\n}\nm\nresult yes", "write error: one; result (yes)"},
		{"define m: method () {\n catch ex {\n  return x\n }\n return y\n}\nresult (m)\nthrow two", "result (y); write error: two"},
		// A handler is gone when its method is.
		{"define m: method () {\n catch ex {\n  result h\n  return x\n }\n return y\n}\ndefine n: method () {\n m\n throw two\n}\nn", "write error: two"},
		// A handler serves what is thrown after it.
		{"define m: method () {\n throw one\n catch ex {\n  return x\n }\n}\nm", "write error: one"},
		// A handler of a block is gone after it.
		{"define m: method () {\n block {\n  catch ex {\n   result h\n   return x\n  }\n }\n throw two\n}\nm", "write error: two"},
		{"define m: method () {\n block {\n  catch ex {\n   result h\n   return x\n  }\n  throw one\n }\n result no\n}\nresult (m)", "result (h); result (x)"},
		// One method's handler is no other's.
		{"define a: method () {\n catch ex {\n  result a\n  return x\n }\n b\n result went\n}\ndefine b: method () {\n catch ex {\n  result b\n  return y\n }\n throw one\n}\na", "result (b); result (went)"},
		{"define m: method () {\n catch ex\n throw one\n}\ndefine n: method () {\n catch ex {\n  result $ex\n  return z\n }\n m\n}\nresult (n)", "result (one); result (z)"},
		{"define m: method () {\n catch ex {\n  return $ex\n }\n throw (list)\n}\nresult (m)", "result (())"},
		{"define m: method () {\n catch ex {\n  return (catcher $ex)\n }\n throw one\n}\ndefine catcher: method (x) {\n catch ex {\n  return (list inner $ex $x)\n }\n throw two\n}\nresult (m)", "result ((inner two one))"},
		{"define m: method (x) {\n catch ex {\n  return (list $x $ex)\n }\n m2\n}\ndefine m2: method () {\n throw one\n}\nresult (m 1) (m 2)", "result ((1 one) (2 one))"},
	} {
		b.explore("unhandled", s.text, s.text+"\n", nil, func(w *lworld, main *ltask) string {
			var got []string

			for _, e := range w.since("result", "write") {
				if e.what != "write" {
					got = append(got, e.what+" "+lshow(e.v))
				} else if e.obj == w.std[2] {
					got = append(got, "write "+strings.Trim(strings.ReplaceAll(lshow(e.v), "'", ""), "()\n"))
				}
			}

			if s := strings.Join(got, "; "); s != strings.Join(strings.Split(s, "\n"), " ") {
				return s
			}

			if strings.Join(got, "; ") != s.want {
				return "what happens is " + strings.Join(got, "; ")
			}

			return w.idle()
		})
	}
}

func (b *bootScript) catchNames() {
	for _, n := range b.localNames() {
		if n == "ex" || n == "_return_" || n == "_throw_" {
			continue
		}

		text := "define run: method () {\n define " + n + " mine\n catch ex {\n  return (list $" + n + " $ex)\n }\n pl $" + n + "\n throw (list $" + n + ")\n}\nresult (run)\n"

		b.explore("variables", "catch with a variable named "+n, text, func(w *lworld) {
			w.probe("pl", lbehave{v: lsym("V")})
		}, func(w *lworld, _ *ltask) string {
			es := w.since("begin", "result")
			if len(es) != 2 || lshow(es[0].v) != "(mine)" || lshow(es[1].v) != "((mine (mine)))" {
				return "what happens is " + levents(es)
			}

			return ""
		})
	}
}
