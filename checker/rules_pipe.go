package main

import (
	"fmt"
	"strings"
)

func init() {
	rules["C05"] = rule{
		explain: "The definitions of the pipe operators, of capture and of process substitution in the start-up script are interpreted abstractly: the commands they connect are free to write, read, return and throw, pipes hold one line or many, and every interleaving of the tasks involved is followed (up to the order of operations that do not affect each other). What each command's stdin, stdout and stderr are, what is read, how often each command runs, which ends are closed, which exceptions come out and whether every task ends are compared with what the operators mean. The conduits they pass through are decided from the Go source as for C21, with one preemption.",
		assume:  []string{"the primitives the script uses mean what the evaluator's own properties (C02, C03, C06, C10, C13, C20) establish; the reader builds from the text of the script what the grammar says (C17)", "pipes and fifos behave as the kernel documents"},
		run:     checkC05,
	}
}

// lstage is a command of a pipeline, as it appears in a text.
type lstage struct {
	name string
	lbehave
}

func checkC05(c *Check) {
	b := c.bootScript("script")
	if b == nil {
		return
	}

	full := lbehave{writes: 2, reads: true, throws: true, v: lsym("V")}
	some := lbehave{writes: 1, reads: true, throws: true, v: lsym("V")}

	for _, op := range []string{"|", "|&"} {
		for _, size := range []int{1, 3} {
			b.pipeline(op, size, "commands", "l a1 $here "+op+" r (list a2) $here", lstage{"l", full}, lstage{"r", full})
		}

		b.pipeline(op, 1, "methods", "ml a1 $here "+op+" mr (list a2) $here", lstage{"l", some}, lstage{"r", some})
		b.pipeline(op, 1, "object methods", "o ml a1 $here "+op+" o mr (list a2) $here", lstage{"l", some}, lstage{"r", some})
		b.pipeline(op, 1, "blocks", "block {\n l a1 $here\n} "+op+" block {\n r (list a2) $here\n}", lstage{"l", some}, lstage{"r", some})

		quiet := lbehave{writes: 1, reads: true, v: lsym("V")}
		rude := lbehave{writes: 1, throws: true, v: lsym("V")}

		b.pipeline(op, 1, "three commands", "l a1 $here "+op+" m "+op+" r (list a2) $here", lstage{"l", rude}, lstage{"m", quiet}, lstage{"r", lbehave{reads: true, v: lsym("V")}})
		b.pipeline(op, 1, "three commands, the last throws", "l a1 $here "+op+" m "+op+" r (list a2) $here", lstage{"l", lbehave{writes: 1, v: lsym("V")}}, lstage{"m", lbehave{reads: true, v: lsym("V")}}, lstage{"r", rude})
		b.pipeNames(op)
	}

	b.pipeDefines()

	for _, size := range []int{1, 4} {
		b.captured(size, "a command", "l a1 $here", full)
		b.captured(size, "a method", "ml a1 $here", full)
		b.captured(size, "a block", "block {\n l a1 $here\n}", full)
	}

	b.captureNested()
	b.captureNames()
	b.captureRaw()
	b.substitution()
	b.flush()
	c.operators("operator", "|", "|&", "|<", "|>")
	c.reads("grammar", append(mixed(3, "|", "&&", ";", ">"), "a | N b | N N a", "a |< ( b | a )", "a _ b |< ( b ) a |< ( a _ b ) _ 'q'",
		"a |< ( b ) |< ( a )", "a ` ( b _ a | b )", "a _ ` ( b ) _ a", "( a | b ) | a", "a | b &", "a |< ( b ) | a |< ( b )")...)
	c.atLeast("script", b.seen, 60)

	// What the script's parts pass through.
	checkConduits(c, 1)
}

const pipeDefs = `
define ml: method (x y) {
    l $x $y
}
define mr: method (x y) {
    r $x $y
}
define o: object {
    export ml: method (x y) {
        l $x $y
    }
    export mr: method (x y) {
        r $x $y
    }
}
`

// pipes are the conduits that were made since the shell started.
func (w *lworld) idle() string {
	for _, t := range w.tasks[w.services:] {
		if !t.done {
			return "a task is left behind: " + w.stuck()
		}
	}

	return ""
}

// only picks the one event of a kind.
func lonly(es []levent, what, name string) (e levent, bad string) {
	n := 0

	for _, x := range es {
		if x.what == what && x.name == name {
			e = x
			n++
		}
	}

	if n != 1 {
		return e, fmt.Sprintf("%s: %d times %s", name, n, what)
	}

	return e, ""
}

func (w *lworld) lshut(c *lconduit) string {
	if c.kind != "pipe" {
		return "stdin or stdout is a " + c.kind
	}

	for _, end := range []string{"reader", "writer"} {
		n := 0

		for _, e := range w.since("close") {
			if e.obj == c && (e.mode == end || e.mode == "both") {
				n++
			}
		}

		if n == 0 {
			return "the " + end + "'s end of the pipe stays open"
		}
	}

	return ""
}

func lsame(a, b []lv) bool { return lshow(llist(a...)) == lshow(llist(b...)) }

func (b *bootScript) pipeline(op string, size int, kind, cmd string, stages ...lstage) {
	text := pipeDefs + `
define run: method () {
    catch ex {
        during
        return (caught $ex)
    }
    define here a3
    result (` + cmd + `)
    after
}
run
after
`

	b.explore("pipeline", fmt.Sprintf("%s %s (room for %d)", op, kind, size), text, func(w *lworld) {
		w.pipeCap = size
		for _, s := range stages {
			w.probe(s.name, s.lbehave)
		}
	}, func(w *lworld, main *ltask) string {
		es := w.since("begin", "end", "result", "caught")

		var in lv = w.std[0]

		failed := map[string]bool{}
		tasks := map[*ltask]bool{}

		var before levent

		for i, s := range stages {
			e, bad := lonly(es, "begin", s.name)
			if bad != "" {
				return bad
			}

			end, bad := lonly(es, "end", s.name)
			if bad != "" {
				return bad
			}

			if tasks[e.task] {
				return "two commands run one after the other"
			}

			tasks[e.task] = true

			want := map[string]string{"l": "(a1 a3)", "r": "((a2) a3)", "m": "()"}[s.name]
			if lshow(e.v) != want {
				return fmt.Sprintf("%s is passed %s", s.name, lshow(e.v))
			}

			if i == len(stages)-1 {
				if bad := w.is(e, in, w.std[1], w.std[2]); bad != "" {
					return bad
				}
			} else {
				p, ok := e.stdout.(*lconduit)
				if !ok {
					return s.name + " has no stdout"
				}

				if bad := w.lshut(p); bad != "" {
					return bad
				}

				var errs lv = w.std[2]
				if op == "|&" {
					errs = p
				}

				if bad := w.is(e, in, p, errs); bad != "" {
					return bad
				}

				if p.cap != size {
					return "not a pipe"
				}

				in = p
			}

			if i > 0 {
				p := e.stdin.(*lconduit)
				if !lsame(before.put, p.all) && before.mode == "returns" {
					return "what is written is lost"
				}

				if n := len(end.got); n > len(p.all) || !lsame(end.got, p.all[:n]) {
					return "what is read is not what is written"
				} else if n > 0 && n != len(p.all) {
					return "the end of the input is seen too early"
				}
			}

			if end.mode != "returns" {
				failed[ltext(end.v)] = true
			}

			before = end
		}

		outcome := 0

		for _, e := range es {
			switch e.what {
			case "caught":
				outcome++

				if p, ok := e.v.(*lpair); !ok || p == lNull || !failed[ltextOr(p.car)] {
					return "the exception is " + lshow(e.v)
				}

				d, bad := lonly(es, "begin", "during")
				if bad == "" {
					bad = w.is(d, w.std[0], w.std[1], w.std[2])
				}

				if bad != "" {
					return bad
				}
			case "result":
				outcome++

				if len(failed) > 0 {
					return "an exception is lost"
				}

				if lshow(e.v) != "(V)" {
					return "the value is " + lshow(e.v)
				}
			case "begin":
				if e.name != "after" {
					continue
				}

				if e.task != main {
					return "what comes next runs in another task"
				}

				if bad := w.is(e, w.std[0], w.std[1], w.std[2]); bad != "" {
					return bad
				}
			}
		}

		if outcome != 1 {
			return fmt.Sprintf("%d outcomes", outcome)
		}

		// What follows starts when every command is done.
		done := 0

		for _, e := range es {
			for _, s := range stages {
				if e.what == "end" && e.name == s.name {
					done++
				}
			}

			if e.what == "result" && done < len(stages) {
				return "what follows starts before every command is done"
			}
		}

		return w.idle()
	})
}

func ltextOr(v lv) string {
	if s, ok := v.(lstr); ok {
		return string(s)
	}

	return "(" + lshow(v) + ")"
}

// pipeNames checks that variables keep their values whatever they are called.
func (b *bootScript) pipeNames(op string) {
	for _, n := range b.localNames() {
		text := "define run: method () {\n define " + n + " mine\n pl $" + n + " " + op + " pr $" + n + "\n}\nrun\n"

		b.explore("variables", op+" with a variable named "+n, text, func(w *lworld) {
			w.probe("pl", lbehave{v: lsym("V")})
			w.probe("pr", lbehave{v: lsym("V")})
		}, func(w *lworld, _ *ltask) string {
			es := w.since("begin")
			if len(es) != 2 || lshow(es[0].v) != "(mine)" || lshow(es[1].v) != "(mine)" {
				return "the commands are run as " + levents(es)
			}

			return ""
		})
	}
}

// pipeDefines checks that what a command of a pipeline changes stays changed.
func (b *bootScript) pipeDefines() {
	text := `
define x 1
define z 1
block {
    set x 2
    define y 3
} | block {
    set z 2
    define y 3
}
result $x $z
result (resolves? y)
`

	b.explore("scope", "changes made by piped commands", text, nil, func(w *lworld, _ *ltask) string {
		if s := levents(w.since("result")); s != "result (2 2); result (())" {
			return s
		}

		return ""
	})
}

func (b *bootScript) captured(size int, kind, cmd string, behave lbehave) {
	text := pipeDefs + `
define run: method () {
    catch ex {
        during
        return (caught $ex)
    }
    define here a3
    result ` + "`(" + cmd + ")" + `
    after
}
run
after
`

	b.explore("capture", fmt.Sprintf("%s (room for %d)", kind, size), text, func(w *lworld) {
		w.pipeCap = size
		w.probe("l", behave)
	}, func(w *lworld, main *ltask) string {
		es := w.since("begin", "end", "result", "caught")

		e, bad := lonly(es, "begin", "l")
		if bad != "" {
			return bad
		}

		end, bad := lonly(es, "end", "l")
		if bad != "" {
			return bad
		}

		if lshow(e.v) != "(a1 a3)" {
			return "passed " + lshow(e.v)
		}

		p, ok := e.stdout.(*lconduit)
		if !ok {
			return "no stdout"
		}

		if bad := valOr2(w.is(e, w.std[0], p, w.std[2]), w.lshut(p)); bad != "" {
			return bad
		}

		outcome := 0

		for _, e := range es {
			switch {
			case e.what == "result":
				outcome++

				if end.mode != "returns" {
					return "an exception is lost"
				}

				if lshow(e.v) != lshow(llist(end.put...)) {
					return fmt.Sprintf("the value is %s where %s is written", lshow(e.v), lshow(llist(end.put...)))
				}
			case e.what == "caught":
				outcome++

				if end.mode == "returns" || lshow(e.v) != lshow(llist(end.v)) {
					return "the exception is " + lshow(e.v)
				}
			case e.what == "begin" && (e.name == "after" || e.name == "during"):
				if e.task != main {
					return "what comes next runs in another task"
				}

				if bad := w.is(e, w.std[0], w.std[1], w.std[2]); bad != "" {
					return bad
				}
			}
		}

		if outcome != 1 {
			return fmt.Sprintf("%d outcomes", outcome)
		}

		return w.idle()
	})
}

// captureNested combines capture with itself, pipelines and redirections.
func (b *bootScript) captureNested() {
	for _, s := range []struct{ text, want string }{
		{"result `(pass `(two))", "result ('two 0' 'two 1')"},
		{"result `(two | filter)", "result ('two 0' 'two 1')"},
		{"result x `(two) y", "result (x 'two 0' 'two 1' y)"},
		{"result `(none)", "result ()"},
		{"result (capture (two))", "result (('two 0' 'two 1'))"},
		{"pass `(two) | sink", "sink ('two 0' 'two 1')"},
		{"pass `(two | filter) | filter | sink", "sink ('two 0' 'two 1')"},
		{"two | block {\n result `(filter)\n}", "result ('two 0' 'two 1')"},
		{"two | filter > f", "f ('two 0' 'two 1')"},
		{"result `(filter < g)", "result ('line')"},
		{"block {\n two\n} | block {\n filter\n two\n} | sink", "sink ('two 0' 'two 1' 'two 0' 'two 1')"},
		{"define m: method () {\n two | filter\n}\nm | sink", "sink ('two 0' 'two 1')"},
		{"define m: method () {\n result `(two)\n}\nm | sink", "result ('two 0' 'two 1'); sink ()"},
	} {
		b.explore("nested", s.text, s.text+"\n", func(w *lworld) {
			w.fs["g"] = "file"
			w.content["g"] = []lv{lstr("line")}
			w.probe("two", lbehave{writes: 2, exact: true, v: lsym("V")})
			w.probe("none", lbehave{v: lsym("V")})
			w.native("filter", func(t *ltask, args lv) lv {
				in, out := t.valueOf(nil, "stdin").(*lconduit), t.valueOf(nil, "stdout").(*lconduit)
				for l := in.take(t); l != lv(lNull); l = in.take(t) {
					out.put(t, l)
				}

				return lNull
			})
			w.native("pass", func(t *ltask, args lv) lv {
				out := t.valueOf(nil, "stdout").(*lconduit)
				for _, v := range lslice(args) {
					out.put(t, v)
				}

				return lNull
			})
			w.native("sink", func(t *ltask, args lv) lv {
				var got []lv

				in := t.valueOf(nil, "stdin").(*lconduit)
				for l := in.take(t); l != lv(lNull); l = in.take(t) {
					got = append(got, l)
				}

				w.event(t, levent{what: "sink", v: llist(got...)})

				return lNull
			})
		}, func(w *lworld, main *ltask) string {
			got := levents(w.since("result", "sink"))

			for _, e := range w.since("open") {
				if e.obj.path == "f" {
					got = "f " + lshow(llist(e.obj.all...))
				}
			}

			if got != s.want {
				return got
			}

			if main.died != "" {
				return "throws " + main.died
			}

			return w.idle()
		})
	}
}

func (b *bootScript) captureNames() {
	for _, n := range b.localNames() {
		text := "define run: method () {\n define " + n + " mine\n result `(pl $" + n + ")\n}\nrun\n"

		b.explore("variables", "capture with a variable named "+n, text, func(w *lworld) {
			w.probe("pl", lbehave{v: lsym("V")})
		}, func(w *lworld, _ *ltask) string {
			es := w.since("begin")
			if len(es) != 1 || lshow(es[0].v) != "(mine)" {
				return "the command is run as " + levents(es)
			}

			return ""
		})
	}
}

// captureRaw checks that whole lines are captured, in the order written.
func (b *bootScript) captureRaw() {
	b.explore("capture", "several writers", "result `(block {\n w1\n w2\n})\n", func(w *lworld) {
		w.probe("w1", lbehave{writes: 2, exact: true, v: lsym("V")})
		w.probe("w2", lbehave{writes: 2, exact: true, v: lsym("V")})
	}, func(w *lworld, _ *ltask) string {
		if s := levents(w.since("result")); s != "result ('w1 0' 'w1 1' 'w2 0' 'w2 1')" {
			return s
		}

		return w.idle()
	})
}

// substitution checks process substitution: the command is passed names it
// can open to read what one command writes or to write what another reads.
func (b *bootScript) substitution() {
	for _, s := range []struct{ text, args string }{
		{"cmd a $here |<(w1 $here)", "a a3 <w1"},
		{"cmd a |<(w1 $here) b", "a <w1 b"},
		{"cmd |<(w1 $here) |<(w2)", "<w1 <w2"},
		{"cmd a |>(r1 $here)", "a >r1"},
		{"cmd |<(w1 $here) x |>(r1 $here) y", "<w1 x >r1 y"},
		{"mcmd a |<(w1 $here)", "a <w1"},
	} {
		for _, order := range []string{"opens", "throws"} {
			text := `
define mcmd: method (a b) {
    cmd $a $b
}
define run: method () {
    catch ex {
        during
        return (caught $ex)
    }
    define here a3
    result (` + s.text + `)
    after
}
run
after
`
			names := strings.Fields(s.args)

			b.explore("substitution", s.text+", the command "+order, text, func(w *lworld) {
				for _, n := range []string{"w1", "w2"} {
					w.probe(n, lbehave{writes: 1, throws: order == "throws", v: lsym("W")})
				}

				w.probe("r1", lbehave{reads: true, throws: order == "throws", exact: order == "opens", v: lsym("R")})

				w.programs["rm"] = func(t *ltask, args lv) lv {
					for _, a := range lslice(args) {
						w.event(t, levent{what: "removed", name: ltext(a)})
						delete(w.fifos, ltext(a))
					}

					return lsym("true")
				}

				w.native("cmd", func(t *ltask, args lv) lv {
					e := levent{what: "begin", name: "cmd", v: args}
					e.stdin, e.stdout, e.stderr = t.valueOf(nil, "stdin"), t.valueOf(nil, "stdout"), t.valueOf(nil, "stderr")
					w.event(t, e)

					as := lslice(args)
					end := levent{what: "end", name: "cmd", v: lsym("V")}

					// A program opens the files it is given, in order.
					for i, n := range names {
						if i >= len(as) || n[0] != '<' && n[0] != '>' {
							continue
						}

						path := ltext(as[i])
						if w.fifos[path] == nil {
							end.mode = "no fifo " + path
							w.event(t, end)

							return lNull
						}

						mode := map[byte]string{'<': "r-", '>': "w-"}[n[0]]
						f := w.open(t, mode, path).(*lconduit)

						if n[0] == '<' {
							for l := f.take(t); l != lv(lNull); l = f.take(t) {
								end.got = append(end.got, l)
							}
						} else {
							func() {
								defer func() {
									if r := recover(); r != nil {
										if _, ok := r.(lerr); !ok {
											panic(r)
										}
									}
								}()

								f.put(t, lstr("from cmd"))
								end.put = append(end.put, lstr("from cmd"))
							}()
						}

						f.shutEnd(t, "both")
					}

					end.mode = "returns"

					if order == "throws" && w.x.choose(2, "cmd throws") == 1 {
						end.mode, end.v = "throws", lstr("error of cmd")
						w.event(t, end)
						t.raise(end.v)
					}

					w.event(t, end)

					return lsym("V")
				})
			}, func(w *lworld, main *ltask) string {
				return w.substituted(names, main)
			})
		}
	}
}

func (w *lworld) substituted(names []string, main *ltask) string {
	es := w.since("begin", "end", "result", "caught")

	begin, bad := lonly(es, "begin", "cmd")
	if bad != "" {
		return bad
	}

	end, bad := lonly(es, "end", "cmd")
	if bad != "" {
		return bad
	}

	if end.mode != "returns" && end.mode != "throws" {
		return end.mode
	}

	if bad := w.is(begin, w.std[0], w.std[1], w.std[2]); bad != "" {
		return bad
	}

	as := lslice(begin.v)
	if len(as) != len(names) {
		return "the command is passed " + lshow(begin.v)
	}

	failed := map[string]bool{}
	if end.mode == "throws" {
		failed[ltext(end.v)] = true
	}

	fifos := map[string]*lconduit{}

	for _, e := range w.since("fifo") {
		fifos[e.name] = e.obj
	}

	paths := map[string]bool{}

	var got []lv

	for i, n := range names {
		if n[0] != '<' && n[0] != '>' {
			if ltext(as[i]) != n {
				return "the command is passed " + lshow(begin.v)
			}

			continue
		}

		path := ltext(as[i])
		f := fifos[path]

		if f == nil || paths[path] {
			return "the command is passed " + lshow(begin.v)
		}

		paths[path] = true

		e, bad := lonly(es, "begin", n[1:])
		if bad != "" {
			return bad
		}

		x, bad := lonly(es, "end", n[1:])
		if bad != "" {
			return bad
		}

		if n[1:] != "w2" && lshow(e.v) != "(a3)" {
			return n[1:] + " is passed " + lshow(e.v)
		}

		std := []lv{e.stdin, e.stdout, e.stderr}
		at := map[byte]int{'<': 1, '>': 0}[n[0]]

		h, ok := std[at].(*lconduit)
		if !ok || h.of != f {
			return fmt.Sprintf("%s does not use its fifo but %s", n[1:], lshow(std[at]))
		}

		for j, v := range std {
			if j != at && v != lv(w.std[j]) {
				return fmt.Sprintf("%s of %s is %s", []string{"stdin", "stdout", "stderr"}[j], n[1:], lshow(v))
			}
		}

		if h.rd || h.wr {
			return "an end of a fifo stays open"
		}

		if n[0] == '<' {
			got = append(got, x.put...)
		} else if len(x.got) > 0 && !lsame(x.got, end.put) || len(x.got) == 0 && x.mode == "returns" && len(end.put) > 0 && len(f.q) == 0 {
			return n[1:] + " does not read what is written"
		}

		if x.mode != "returns" {
			failed[ltext(x.v)] = true
		}
	}

	if !lsame(got, end.got) {
		return fmt.Sprintf("the command reads %s where %s is written", lshow(llist(end.got...)), lshow(llist(got...)))
	}

	for path := range fifos {
		n := 0

		for _, e := range w.since("removed") {
			if e.name == path {
				n++
			}
		}

		if n != 1 {
			return fmt.Sprintf("a fifo is removed %d times", n)
		}
	}

	// The fifos are there until the command is done.
	done := false

	for _, e := range w.since("end", "removed") {
		if e.what == "end" && e.name == "cmd" {
			done = true
		}

		if e.what == "removed" && !done {
			return "a fifo is removed too early"
		}
	}

	outcome := 0

	for _, e := range es {
		switch e.what {
		case "caught":
			outcome++

			if p, ok := e.v.(*lpair); !ok || p == lNull || !failed[ltextOr(p.car)] {
				return "the exception is " + lshow(e.v)
			}
		case "result":
			outcome++

			if len(failed) > 0 {
				return "an exception is lost"
			}

			if lshow(e.v) != "(V)" {
				return "the value is " + lshow(e.v)
			}
		case "begin":
			if e.name != "after" && e.name != "during" {
				continue
			}

			if e.task != main {
				return "what comes next runs in another task"
			}

			if bad := w.is(e, w.std[0], w.std[1], w.std[2]); bad != "" {
				return bad
			}
		}
	}

	if outcome != 1 {
		return fmt.Sprintf("%d outcomes", outcome)
	}

	return w.idle()
}
