package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// The parts of the language the shell defines in its own start-up script.

// bootScript is the embedded start-up script, parsed.
type bootScript struct {
	c    *Check
	path string
	text string
	cmds []lv
	seen int
	todo []*scenario
	mu   sync.Mutex
}

func (c *Check) bootScript(rule string) *bootScript {
	q := c.P.pkg("internal/engine/boot")
	if q == nil {
		c.undecided(rule, "start-up script", "package boot not found")

		return nil
	}

	b := &bootScript{c: c}

	for _, pk := range c.P.Pkgs {
		if pk.Types != q.Pkg {
			continue
		}

		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if cm, ok := n.(*ast.Comment); ok {
					if s, ok := strings.CutPrefix(cm.Text, "//go:embed "); ok {
						b.path = filepath.Join(filepath.Dir(c.P.SSA.Fset.Position(f.Pos()).Filename), strings.TrimSpace(s))
					}
				}

				return true
			})
		}
	}

	text, err := os.ReadFile(b.path)
	if err != nil {
		c.undecided(rule, "start-up script", "%v", err)

		return nil
	}

	b.text = string(text)

	b.cmds, err = lparse(b.text)
	if err != nil {
		c.undecided(rule, "start-up script", "%v", err)

		return nil
	}

	failed := ""

	c.guard(rule, "start-up script", func() {
		w := newLworld(b.cmds)
		if w.failure != nil {
			failed = fmt.Sprint(w.failure)
		}

		for _, e := range w.events {
			if e.what == "write" && e.obj == w.std[2] {
				failed = lshow(e.v)
			}
		}

		w.kill()
	})

	if failed != "" {
		c.fail(rule, "start-up script", 0, "the script does not run: %s", failed)

		return nil
	}

	c.count("script_commands", len(b.cmds))

	return b
}

// lbehave says what an abstract command may do.
type lbehave struct {
	writes int  // lines it may write
	reads  bool // it may read its input to the end
	throws bool // it may throw
	exact  bool // it does all of that every time
	v      lv
}

func (w *lworld) native(name string, f func(t *ltask, args lv) lv) {
	w.scope0.define(name, &lnative{name, false, func(t *ltask, _, args lv) lv { return f(t, args) }})
}

// probe defines an abstract command.
func (w *lworld) probe(name string, b lbehave) {
	w.native(name, func(t *ltask, args lv) (v lv) {
		e := levent{what: "begin", name: name, v: args}
		e.stdin, e.stdout, e.stderr = t.valueOf(nil, "stdin"), t.valueOf(nil, "stdout"), t.valueOf(nil, "stderr")
		w.event(t, e)

		end := levent{what: "end", name: name, mode: "failed"}

		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(lerr); ok {
						end.v = lstr(string(x))
						w.event(t, end)
					}

					panic(r)
				}
			}()

			v = w.behave(t, name, b, &end)
		}()

		w.event(t, end)

		if end.mode == "throws" {
			t.raise(end.v)
		}

		return v
	})
}

func (w *lworld) behave(t *ltask, name string, b lbehave, end *levent) lv {
	pick := func(n int, what string) int {
		if b.exact {
			return n - 1
		}

		return w.x.choose(n, name+" "+what)
	}

	if b.reads && pick(2, "reads") == 1 {
		in, ok := t.valueOf(nil, "stdin").(*lconduit)
		if !ok {
			panic(lerr("no input"))
		}

		for {
			l := in.take(t)
			if l == lv(lNull) {
				break
			}

			end.got = append(end.got, l)
		}
	}

	if n := pick(b.writes+1, "writes"); n > 0 {
		out, ok := t.valueOf(nil, "stdout").(*lconduit)
		if !ok {
			panic(lerr("no output"))
		}

		for i := 0; i < n; i++ {
			l := lstr(fmt.Sprintf("%s %d", name, i))
			out.put(t, l)

			end.put = append(end.put, l)
		}
	}

	if b.throws && pick(2, "throws") == 1 {
		end.mode, end.v = "throws", lstr("error of "+name)

		return nil
	}

	end.mode, end.v = "returns", b.v

	return b.v
}

// recorders defines commands that record what they are given.
func (w *lworld) recorders() {
	for _, name := range []string{"result", "caught"} {
		w.native(name, func(t *ltask, args lv) lv {
			w.event(t, levent{what: name, v: args})

			return lNull
		})
	}

	w.probe("after", lbehave{v: lsym("done")})
	w.probe("during", lbehave{v: lsym("done")})
}

// scenario is a text to be followed every way it can go.
type scenario struct {
	rule, on, text string
	setup          func(w *lworld)
	judge          func(w *lworld, t *ltask) string
	x              *lexplore
	verdict        string
	broken         any
}

// explore notes a text to follow.
func (b *bootScript) explore(rule, on, text string, setup func(w *lworld), judge func(w *lworld, t *ltask) string) {
	b.todo = append(b.todo, &scenario{rule: rule, on: on, text: text, setup: setup, judge: judge})
}

// flush follows the texts that were noted, every way they can go.
func (b *bootScript) flush() {
	work := make(chan *scenario)

	var wg sync.WaitGroup

	for i := 0; i < 8; i++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			for s := range work {
				b.follow(s)
			}
		}()
	}

	for _, s := range b.todo {
		work <- s
	}

	close(work)
	wg.Wait()

	for _, s := range b.todo {
		b.c.guard(s.rule, s.on, func() {
			if s.broken != nil {
				panic(s.broken)
			}

			b.c.count("ways_through_script", s.x.Runs)
			b.c.count("script_steps", s.x.Steps)

			b.seen++

			if strings.HasPrefix(s.verdict, "not analysable") {
				b.c.undecided(s.rule, s.on, "%s", s.verdict)

				return
			}

			b.c.ob(s.rule, s.on, s.verdict == "", 0, "%s", valOr2(s.verdict, fmt.Sprintf("%d ways", s.x.Runs)))
		})
	}

	b.todo = nil
}

func (b *bootScript) follow(s *scenario) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("OHCHECK_DEBUG") != "" {
				panic(r)
			}

			s.broken = r
		}
	}()

	cmds, err := lparse(s.text)
	if err != nil {
		s.x, s.verdict = &lexplore{}, "not analysable: "+err.Error()

		return
	}

	var main *ltask

	start := time.Now()

	s.x, s.verdict = lexplored(60000, func(x *lexplore) *lworld {
		w := newLworld(b.cmds)
		w.x = x
		w.recorders()

		if s.setup != nil {
			s.setup(w)
		}

		main = w.main(cmds)

		return w
	}, func(w *lworld) string {
		if !main.done {
			return "never ends: " + w.stuck()
		}

		return s.judge(w, main)
	})

	if os.Getenv("OHCHECK_DEBUG") != "" {
		fmt.Printf("%8d ways %10d steps %6.1fs %s %s\n", s.x.Runs, s.x.Steps, time.Since(start).Seconds(), s.rule, s.on)
	}
}

func valOr2(s, t string) string {
	if s != "" {
		return s
	}

	return t
}

// stuck describes the tasks that wait for something.
func (w *lworld) stuck() string {
	var s []string

	for _, t := range w.tasks[w.services:] {
		if !t.done && t.op != nil {
			n := "nothing"
			if t.op.obj != nil {
				n = t.op.obj.kind
			}

			s = append(s, fmt.Sprintf("task %d waits to %s a %s", t.id-w.services, t.op.what, n))
		}
	}

	return strings.Join(s, ", ")
}

func (w *lworld) since(what ...string) (es []levent) {
	for _, e := range w.events[w.booted:] {
		for _, k := range what {
			if e.what == k {
				es = append(es, e)
			}
		}
	}

	return es
}

func (e levent) String() string {
	s := e.what
	if e.name != "" {
		s += " " + e.name
	}

	if e.mode != "" {
		s += " " + e.mode
	}

	if e.obj != nil && e.what != "open" {
		s += " " + e.obj.kind
		if e.obj.path != "" {
			s += " " + e.obj.path
		}
	}

	if e.v != nil {
		s += " " + lshow(e.v)
	}

	return s
}

func levents(es []levent) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}

	return strings.Join(s, "; ")
}

func (w *lworld) is(e levent, in, out, errs lv) string {
	for i, v := range []lv{e.stdin, e.stdout, e.stderr} {
		want := []lv{in, out, errs}[i]
		if v != want {
			return fmt.Sprintf("%s of %s is %s, must be %s", []string{"stdin", "stdout", "stderr"}[i], e.name, lshow(v), lshow(want))
		}
	}

	return ""
}

// localNames are the names the start-up script gives to parameters and
// variables of its own.
func (b *bootScript) localNames() []string {
	names := map[string]bool{}

	var walk func(v lv, depth int)

	key := func(v lv) string {
		if p, ok := v.(*lpair); ok && p != lNull && p.car == lv(lsym("mend")) {
			vs := lslice(p)
			if len(vs) == 4 && vs[3] == lv(lsym(":")) {
				v = vs[2]
			}
		}

		s, _ := v.(lsym)

		return string(s)
	}

	walk = func(v lv, depth int) {
		p, ok := v.(*lpair)
		if !ok || p == lNull {
			return
		}

		if h, ok := p.car.(lsym); ok {
			args, ok := p.cdr.(*lpair)

			switch {
			case !ok || args == lNull:
			case h == "define" && depth > 0:
				names[key(args.car)] = true
			case h == "catch":
				names[key(args.car)] = true
			case h == "method" || h == "syntax":
				for i := 0; i < 3 && args != lNull; i++ {
					if q, ok := args.car.(*lpair); ok && q != lNull {
						if i > 1 {
							break
						}

						for q != lNull {
							if r, ok := q.car.(*lpair); ok && r != lNull {
								names[key(r.car)] = true
							}

							names[key(q.car)] = true

							if q, ok = q.cdr.(*lpair); !ok {
								break
							}
						}
					} else if s := key(args.car); s != "" {
						names[s] = true
					}

					if args, ok = args.cdr.(*lpair); !ok {
						break
					}
				}
			}
		}

		for q := p; ; {
			walk(q.car, depth+1)

			n, ok := q.cdr.(*lpair)
			if !ok || n == lNull {
				return
			}

			q = n
		}
	}

	for _, c := range b.cmds {
		walk(c, 0)
	}

	var l []string

	w := newLworld(b.cmds)

	for n := range names {
		// A name the language itself gives a meaning cannot be a variable,
		// and those that start with an underscore are reserved.
		if _, r := w.frame0.resolve(n); n == "" || n == "=" || r != nil || n == "return" || n == "throw" || strings.HasPrefix(n, "_") {
			continue
		}

		l = append(l, n)
	}

	w.kill()
	sort.Strings(l)

	return l
}
