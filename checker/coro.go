package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// coro evaluates several goroutines over one abstract state. Each is a
// straight line of evaluation; where one waits for another, and before every
// operation another may see, the next to run is a choice, and every choice (up
// to a number of preemptions) is explored by evaluating the scenario again.
type coro struct {
	c    *Check
	p    *Program
	in   *Interp // the template: hooks and bounds
	st   *State
	rule string
	on   string

	pick   func(n int) int
	spare  int // preemptions left
	ths    []*cthread
	cur    *cthread
	sched  chan struct{}
	offers []*offer
	files  map[string]*cfile
	locks  map[string]*clock
	fresh  int
	failed bool
	trace  []string
	fault  any
}

type cthread struct {
	co     *coro
	name   string
	in     *Interp
	ready  func() bool
	what   string // what it waits for
	resume chan bool
	done   bool
	out    Out
}

type offer struct {
	ch    string
	v     Val
	taken bool
}

// cbuf is what has been written to a pipe and not been read.
type cbuf struct {
	data    string
	writers int
	readers int
	writes  []string
}

type cfile struct {
	name   string
	buf    *cbuf
	wr     bool
	closed bool

	// A buffered reader of another file.
	of   *cfile
	have string
	busy bool
}

type clock struct {
	writer  bool
	readers int
}

type stopped struct{}

// explore evaluates a scenario for every schedule with at most n preemptions.
// The scenario starts the threads; judge looks at how they ended.
func (s *sim) schedules(st0 *State, in *Interp, rule, on string, n int, scenario func(co *coro)) (runs int) {
	q := &seq{sim: s}
	s.c.guard(rule, on, func() {
		for {
			q.pos = 0
			runs++

			if runs > 30000 {
				panic(budgetError{"more than 30000 schedules"})
			}

			co := &coro{
				c: s.c, p: s.p, in: in, st: st0.clone(), rule: rule, on: on, pick: q.pick, spare: n,
				sched: make(chan struct{}), files: map[string]*cfile{}, locks: map[string]*clock{},
			}

			scenario(co)

			if co.failed {
				return
			}

			q.choice, q.arity = q.choice[:q.pos], q.arity[:q.pos]

			for len(q.choice) > 0 && q.choice[len(q.choice)-1]+1 == q.arity[len(q.arity)-1] {
				q.choice = q.choice[:len(q.choice)-1]
				q.arity = q.arity[:len(q.arity)-1]
			}

			if len(q.choice) == 0 {
				break
			}

			q.choice[len(q.choice)-1]++
		}

		s.c.pass(rule, on, "%d schedules", runs)
	})

	s.c.count("schedules", runs)

	return runs
}

func (co *coro) fail(pos token.Pos, f string, args ...any) {
	if !co.failed {
		co.failed = true
		co.c.fail(co.rule, co.on, pos, "%s (%s)", fmt.Sprintf(f, args...), strings.Join(co.trace, ", "))
	}
}

// thread adds a thread.
func (co *coro) thread(name string, body func(th *cthread)) *cthread {
	in := *co.in
	in.stack = nil
	th := &cthread{co: co, name: name, in: &in, resume: make(chan bool)}
	co.ths = append(co.ths, th)

	in.Chan = th.channel
	in.Go = func(c *CallCtx, fn Val, args []Val) {
		f, ok := fn.(*Fn)
		if !ok {
			panic(budgetError{"an unknown function is started: " + show(fn)})
		}

		co.thread("goroutine "+co.p.fname(f.F), func(t *cthread) {
			o := t.eval(f.F, args, f.B)
			if o.Kind == Panic {
				co.fail(o.Pos, "%s ends the process: %s", co.p.fname(f.F), o.Why)
			}
		})
	}
	in.Any = th.any

	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopped); !ok {
					co.fault = r

					if _, bug := r.(error); bug && os.Getenv("OHCHECK_DEBUG") != "" {
						os.Stderr.Write(debug.Stack())
					}
				}
			}

			th.done = true
			co.sched <- struct{}{}
		}()

		if !<-th.resume {
			panic(stopped{})
		}

		body(th)
	}()

	return th
}

// run runs the threads until none can go on.
func (co *coro) run() {
	for {
		var rs []*cthread

		for _, t := range co.ths {
			if !t.done && (t.ready == nil || t.ready()) {
				rs = append(rs, t)
			}
		}

		if len(rs) == 0 || co.failed || co.fault != nil {
			break
		}

		var t *cthread

		mine := false

		for i, r := range rs {
			if r == co.cur {
				rs[0], rs[i] = rs[i], rs[0]
				mine = true
			}
		}

		if mine && co.spare == 0 {
			t = rs[0]
		} else {
			i := co.pick(len(rs))
			t = rs[i]

			if mine && i > 0 {
				co.spare--
			}
		}

		co.cur = t
		t.ready = nil
		t.resume <- true
		<-co.sched
	}
}

// end stops what still waits, and lists it.
func (co *coro) end() (waiting []string) {
	for i := 0; i < len(co.ths); i++ {
		t := co.ths[i]
		if t.done {
			continue
		}

		waiting = append(waiting, t.name+" waits "+t.what)
		t.resume <- false
		<-co.sched
	}

	if co.fault != nil {
		panic(co.fault)
	}

	return waiting
}

// wait lets other threads run, until a condition holds.
func (th *cthread) wait(c *CallCtx, what string, ready func() bool) {
	co := th.co
	if c != nil {
		co.st = c.St
	}

	th.ready, th.what = ready, what
	co.sched <- struct{}{}

	if !<-th.resume {
		panic(stopped{})
	}

	if c != nil {
		c.St = co.st
	}
}

func (th *cthread) note(f string, args ...any) {
	th.co.trace = append(th.co.trace, th.name+": "+fmt.Sprintf(f, args...))
}

func (th *cthread) eval(f *ssa.Function, args, binds []Val) Out {
	if f == nil {
		panic(budgetError{"a function of the scenario is missing"})
	}

	th.in.Steps = 0

	outs := th.in.Call(th.co.st, f, args, binds, 0, false)
	if len(outs) != 1 || outs[0].Kind == Trunc {
		why := ""
		for _, o := range outs {
			why += " " + o.Kind + " " + o.Why
		}

		panic(budgetError{fmt.Sprintf("%s has %d outcomes:%s", th.co.p.fname(f), len(outs), why)})
	}

	th.co.st = outs[0].St
	th.co.in.Paths++

	return outs[0]
}

func (th *cthread) call(f *ssa.Function, args ...Val) Out { return th.eval(f, args, nil) }

func (co *coro) closed(ch Val) bool { return co.st.User["closed:"+ch.Key()] != nil }

func (co *coro) offered(ch Val) *offer {
	for _, o := range co.offers {
		if !o.taken && o.ch == ch.Key() {
			return o
		}
	}

	return nil
}

func (co *coro) queue(ch Val) Tuple {
	q, _ := co.st.User["chan:"+ch.Key()].(Tuple)

	return q
}

func chanRoom(ch Val) int {
	if t := asTerm(ch); t != nil && t.Op == "chan" {
		n, _ := asInt(t.Args[0])

		return int(n)
	}

	return 0
}

func (co *coro) receivable(ch Val) bool {
	return len(co.queue(ch)) > 0 || co.offered(ch) != nil || co.closed(ch)
}

func (co *coro) receive(ch Val) (Val, bool) {
	k := "chan:" + ch.Key()

	if q := co.queue(ch); len(q) > 0 {
		co.st.User[k] = append(Tuple{}, q[1:]...)
		// A sender that found the buffer full goes on.
		if o := co.offered(ch); o != nil {
			o.taken = true
			co.st.User[k] = append(co.st.User[k].(Tuple), o.v)
		}

		return q[0], true
	}

	if o := co.offered(ch); o != nil {
		o.taken = true

		return o.v, true
	}

	var z Val = Nil{}
	if t := asTerm(ch); t != nil && t.T != nil {
		if ct, ok := t.T.Underlying().(*types.Chan); ok {
			z = zeroVal(ct.Elem())
		}
	}

	return z, false
}

func (th *cthread) raise(c *CallCtx, why string) []Out {
	v := rtPanic(why)

	// The value is an error.
	if t := th.co.p.extType("runtime", "plainError"); t != nil {
		v = &Iface{t, cStr(why)}
	}

	return []Out{{St: th.co.st, Kind: Panic, Val: v, Pos: c.Pos, Why: why}}
}

func (th *cthread) channel(c *CallCtx, op string, ch, v Val) ([]Out, bool) {
	co := th.co
	co.st = c.St

	switch op {
	case "send":
		if q := co.queue(ch); len(q) < chanRoom(ch) && !co.closed(ch) {
			co.st.User["chan:"+ch.Key()] = append(append(Tuple{}, q...), v)

			return ret(co.st, Tuple{}), true
		}

		o := &offer{ch: ch.Key(), v: v}
		co.offers = append(co.offers, o)

		th.wait(c, "to send", func() bool { return o.taken || co.closed(ch) })

		if !o.taken {
			o.taken = true

			return th.raise(c, "send on closed channel"), true
		}

		return ret(co.st, Tuple{}), true

	case "recv":
		if isNil(ch) {
			th.wait(c, "to receive from no channel", func() bool { return false })
		}

		th.wait(c, "to receive", func() bool { return co.receivable(ch) })

		v, ok := co.receive(ch)

		return ret(co.st, Tuple{v, cBool(ok)}), true

	case "close":
		if co.closed(ch) {
			return th.raise(c, "close of closed channel"), true
		}

		co.st.User["closed:"+ch.Key()] = cBool(true)

		return ret(co.st, Tuple{}), true

	case "select":
		chs, vals := ch.(Tuple), v.(Tuple)
		blocking := false

		if c.fr != nil && c.fr.idx < len(c.fr.blk.Instrs) {
			if s, ok := c.fr.blk.Instrs[c.fr.idx].(*ssa.Select); ok {
				blocking = s.Blocking
			}
		}

		which := func() (is []int) {
			for i, ch := range chs {
				if isNil(ch) {
					continue
				}

				if isNil(vals[i]) && co.receivable(ch) {
					is = append(is, i)
				}

				if !isNil(vals[i]) && (co.closed(ch) || len(co.queue(ch)) < chanRoom(ch)) {
					is = append(is, i)
				}
			}

			return is
		}

		if blocking {
			th.wait(c, "in a select", func() bool { return len(which()) > 0 })
		}

		is := which()
		if len(is) == 0 {
			return ret(co.st, Tuple{cInt(-1), cBool(false), Nil{}}), true
		}

		i := is[co.pick(len(is))]

		if !isNil(vals[i]) {
			if co.closed(chs[i]) {
				return th.raise(c, "send on closed channel"), true
			}

			co.st.User["chan:"+chs[i].Key()] = append(append(Tuple{}, co.queue(chs[i])...), vals[i])

			return ret(co.st, Tuple{cInt(int64(i)), cBool(false), Nil{}}), true
		}

		v, ok := co.receive(chs[i])

		return ret(co.st, Tuple{cInt(int64(i)), cBool(ok), v}), true
	}

	return nil, false
}

// any models locks, and files that are the ends of pipes.
func (th *cthread) any(c *CallCtx) ([]Out, bool) {
	co := th.co

	if i := strings.LastIndex(c.Name, "."); i > 0 && (strings.HasPrefix(c.Name, "(*sync.Mutex)") || strings.HasPrefix(c.Name, "(*sync.RWMutex)")) {
		k := c.Args[0].Key()

		l := co.locks[k]
		if l == nil {
			l = &clock{}
			co.locks[k] = l
		}

		switch c.Name[i+1:] {
		case "Lock":
			th.wait(c, "for a lock", func() bool { return !l.writer && l.readers == 0 })

			l.writer = true
		case "RLock":
			th.wait(c, "for a lock", func() bool { return !l.writer })

			l.readers++
		case "Unlock":
			if !l.writer {
				panic(budgetError{"unlock of an unlocked mutex"})
			}

			l.writer = false
		case "RUnlock":
			if l.readers == 0 {
				panic(budgetError{"unlock of an unlocked mutex"})
			}

			l.readers--
		case "TryLock":
			ok := !l.writer && l.readers == 0
			l.writer = l.writer || ok

			return ret(c.St, cBool(ok)), true
		default:
			return nil, false
		}

		return ret(c.St, Nil{}), true
	}

	return th.file(c)
}

// file operations are visible to every thread.
func (th *cthread) file(c *CallCtx) ([]Out, bool) {
	co := th.co

	handle := func(v Val) *cfile {
		v = c.St.norm(v)
		if i, ok := v.(*Iface); ok {
			v = c.St.norm(i.V)
		}

		if t := asTerm(v); t != nil && t.Op == "nonnil" {
			v = t.Args[0]
		}

		return co.files[v.Key()]
	}

	eresult := func(n int64, e string) ([]Out, bool) {
		var ev Val = Nil{}
		if e != "" {
			ev = co.error(e)
		}

		if tu, ok := c.Res.(*types.Tuple); ok && tu.Len() == 2 {
			return ret(c.St, Tuple{cInt(n), ev}), true
		}

		return ret(c.St, ev), true
	}

	switch c.Name {
	case "runtime.SetFinalizer":
		return ret(c.St, Nil{}), true

	case "os.Pipe":
		r, w := co.pipe(c.Res.(*types.Tuple).At(0).Type())

		return ret(c.St, Tuple{r, w, Nil{}}), true

	case "bufio.NewReader":
		t := T(c.Res, "bufio", c.Args[0])

		f := handle(c.Args[0])
		if f == nil {
			panic(budgetError{"a buffer for an unknown file " + show(c.Args[0])})
		}

		// Each has a buffer of its own.
		co.fresh++
		t = T(c.Res, "bufio", c.Args[0], cInt(int64(co.fresh)))
		co.files[t.Key()] = &cfile{name: "buffer of " + f.name, buf: f.buf, of: f, closed: true}

		return ret(c.St, T(c.Res, "nonnil", t)), true

	case "(*os.File).Name":
		if f := handle(c.Args[0]); f != nil {
			return ret(c.St, cStr(f.name)), true
		}

	case "(*os.File).Close":
		f := handle(c.Args[0])
		if f == nil {
			panic(budgetError{c.Name + " of an unknown file " + show(c.Args[0])})
		}

		th.wait(c, "to close", func() bool { return true })

		if f.closed {
			return eresult(0, "closed")
		}

		f.closed = true
		th.note("closes %s", f.name)

		if f.wr {
			f.buf.writers--
		} else {
			f.buf.readers--
		}

		return eresult(0, "")

	case "(*os.File).WriteString", "(*os.File).Write", "io.WriteString":
		f := handle(c.Args[0])
		if f == nil {
			panic(budgetError{c.Name + " of an unknown file " + show(c.Args[0])})
		}

		s, ok := asStr(c.St.norm(c.Args[1]))
		if !ok {
			if t := asTerm(c.St.norm(c.Args[1])); t != nil && (t.Op == "bytes" || strings.HasPrefix(t.Op, "conv")) {
				s, ok = asStr(t.Args[0])
			}
		}

		if !ok {
			panic(budgetError{"an unknown text is written: " + show(c.Args[1])})
		}

		th.wait(c, "to write", func() bool { return true })

		switch {
		case f.closed:
			return eresult(0, "closed")
		case !f.wr:
			return eresult(0, "bad descriptor")
		case f.buf.readers == 0:
			return eresult(0, "broken pipe")
		}

		f.buf.data += s
		f.buf.writes = append(f.buf.writes, s)
		th.note("writes %q", s)

		return eresult(int64(len(s)), "")

	case "(*bufio.Reader).ReadString":
		f := handle(c.Args[0])
		if f == nil {
			panic(budgetError{c.Name + " of an unknown file " + show(c.Args[0])})
		}

		if f.of == nil {
			panic(budgetError{c.Name + " of something other than a buffer"})
		}

		if f.busy {
			co.fail(c.Pos, "two tasks use one buffer at a time")
		}

		f.busy = true

		// A read takes all there is.
		th.wait(c, "for input", func() bool {
			return strings.Contains(f.have, "\n") || f.of.closed || f.buf.data != "" || f.buf.writers == 0
		})

		for !strings.Contains(f.have, "\n") && !f.of.closed && f.buf.data != "" {
			f.have += f.buf.data
			f.buf.data = ""

			th.wait(c, "for input", func() bool {
				return strings.Contains(f.have, "\n") || f.of.closed || f.buf.data != "" || f.buf.writers == 0
			})
		}

		f.busy = false

		if i := strings.IndexByte(f.have, '\n'); i >= 0 {
			s := f.have[:i+1]
			f.have = f.have[i+1:]
			th.note("reads %q", s)

			return ret(c.St, Tuple{cStr(s), Nil{}}), true
		}

		s := f.have
		f.have = ""

		if f.of.closed {
			return ret(c.St, Tuple{cStr(s), co.error("closed")}), true
		}

		th.note("reads %q, the end", s)

		return ret(c.St, Tuple{cStr(s), co.error("EOF")}), true

	case "errors.Is":
		a, b := c.St.norm(c.Args[0]), c.St.norm(c.Args[1])

		return ret(c.St, cBool(a.Key() == b.Key())), true

	case "invoke error.Error", "invoke builtin.error.Error":
		return ret(c.St, cStr("error: "+show(c.Args[0]))), true
	}

	return nil, false
}

// pipe makes the two ends of a pipe.
func (co *coro) pipe(t types.Type) (r, w Val) {
	co.fresh++
	b := &cbuf{readers: 1, writers: 1}

	mk := func(n string, wr bool) Val {
		v := T(t, fmt.Sprintf("file:%s%d", n, co.fresh))
		co.files[v.Key()] = &cfile{name: "|" + n, buf: b, wr: wr}

		return T(t, "nonnil", v)
	}

	return mk("r", false), mk("w", true)
}

// file is the end of a pipe a value names.
func (co *coro) end0(v Val) *cfile {
	if t := asTerm(v); t != nil && t.Op == "nonnil" {
		v = t.Args[0]
	}

	return co.files[v.Key()]
}

// error is the value of a well known error.
func (co *coro) error(n string) Val {
	for path, name := range map[string]string{"io": "EOF", "os": "ErrClosed"} {
		if n == "EOF" && name == n || n == "closed" && name == "ErrClosed" {
			if q := co.p.SSA.ImportedPackage(path); q != nil {
				if g := q.Var(name); g != nil {
					v := co.st.norm(co.st.load(co.in.globalPtr(g), g.Type().(*types.Pointer).Elem()))
					if t := asTerm(v); t != nil && t.Op != "nonnil" {
						nonNil(co.st, t)
						v = co.st.norm(v)
					}

					return v
				}
			}
		}
	}

	t := T(types.Universe.Lookup("error").Type(), "error:"+n)
	nonNil(co.st, t)

	return t
}
