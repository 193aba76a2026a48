package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// An abstract interpreter for scripts in the oh language, written from the
// meaning the evaluator's own properties (C02, C03, C06, C10, C13, ...)
// establish for the primitives. Commands are abstract: what they return, throw,
// read and write is left open and every possibility is followed, as is every
// order of the operations tasks perform on the conduits they share.

type (
	lref struct{ v lv }

	lenv struct {
		prev      lscope
		priv, pub map[string]*lref
	}

	lobj struct{ e lscope }

	lscope interface {
		lookup(k string) *lref
		define(k string, v lv)
		export(k string, v lv)
		expose() lscope
		enclosing() lscope
		public() map[string]*lref
		remove(k string) bool
		visible(o lscope) bool
	}

	lframe struct {
		prev  *lframe
		scope lscope
	}

	lclosure struct {
		syntax                  bool
		env, self, params, body lv
		scope                   lscope
	}

	lnative struct {
		name   string
		syntax bool
		fn     func(t *ltask, self lv, args lv) lv
	}

	lbind struct {
		cmd  any // *lclosure, *lnative or *lbind
		self lv
	}

	lcont struct {
		t      *ltask
		active bool
	}

	lmulti struct{ vs []lv }

	// lconduit is a channel, a pipe or an open file.
	lconduit struct {
		id         int
		name       string
		kind       string // chan, pipe, file
		path, mode string
		cap        int
		q          []lv
		rd, wr     bool // ends that are open
		shut       bool // a closed channel
		given      bool // existed before the command
		opened     [2]bool
		ends       [2]int    // ends of a fifo that are open
		of         *lconduit // the fifo this is an end of
		taken      int
		all        []lv // everything ever written
	}

	ltask struct {
		w     *lworld
		id    int
		frame *lframe
		op    *lop
		wake  chan struct{}
		done  bool
		value lv
		died  string // the exception nothing caught
		depth int
	}

	lop struct {
		obj   *lconduit
		what  string
		ready func() bool
	}

	// levent is something a script did that can be seen from outside.
	levent struct {
		task                  *ltask
		what, name, mode      string
		obj                   *lconduit
		stdin, stdout, stderr lv
		v                     lv
		got, put              []lv
	}
)

type (
	lescape struct {
		c *lcont
		v lv
	}
	lkill   struct{}
	lexit   struct{ v lv }
	lgiveup string // the script is outside of what is modelled
)

func newLenv(prev lscope) *lenv {
	return &lenv{prev, map[string]*lref{}, map[string]*lref{}}
}

func (e *lenv) lookup(k string) *lref {
	if r := e.priv[k]; r != nil {
		return r
	}

	if r := e.pub[k]; r != nil {
		return r
	}

	if e.prev != nil {
		return e.prev.lookup(k)
	}

	return nil
}

func (e *lenv) define(k string, v lv)    { e.priv[k] = &lref{v} }
func (e *lenv) export(k string, v lv)    { e.pub[k] = &lref{v} }
func (e *lenv) expose() lscope           { return e }
func (e *lenv) enclosing() lscope        { return e.prev }
func (e *lenv) public() map[string]*lref { return e.pub }

func (e *lenv) remove(k string) bool {
	for _, m := range []map[string]*lref{e.priv, e.pub} {
		if m[k] != nil {
			delete(m, k)

			return true
		}
	}

	return e.prev != nil && e.prev.remove(k)
}

func lnearest(o lscope) lscope {
	for o != nil && len(o.public()) == 0 {
		o = o.enclosing()
	}

	return o
}

func (e *lenv) visible(o lscope) bool {
	p := lnearest(o)
	if p == nil {
		return true
	}

	q := lnearest(e)

	return q != nil && p.expose() == q.expose()
}

func (o *lobj) lookup(k string) *lref    { return o.e.public()[k] }
func (o *lobj) define(string, lv)        { panic(lerr("private names cannot be added to object")) }
func (o *lobj) export(k string, v lv)    { o.e.export(k, v) }
func (o *lobj) expose() lscope           { return o.e }
func (o *lobj) enclosing() lscope        { return o.e.enclosing() }
func (o *lobj) public() map[string]*lref { return o.e.public() }
func (o *lobj) visible(s lscope) bool    { return o.e.visible(s) }

func (o *lobj) remove(k string) bool {
	if o.e.public()[k] == nil {
		return false
	}

	delete(o.e.public(), k)

	return true
}

func (c *lconduit) String() string { return c.name }

func (f *lframe) resolve(k string) (lscope, *lref) {
	if r := f.scope.lookup(k); r != nil {
		return f.scope, r
	}

	for f = f.prev; f != nil; f = f.prev {
		for s := f.scope; s != nil; s = s.enclosing() {
			if r := s.public()[k]; r != nil {
				return s, r
			}
		}
	}

	return nil, nil
}

func lscopeOf(v lv) lscope {
	s, ok := v.(lscope)
	if !ok {
		panic(lerr("not a scope"))
	}

	return s
}

// ltext is the string a value stands for.
func ltext(v lv) string {
	switch v := v.(type) {
	case lsym:
		return string(v)
	case lstr:
		return string(v)
	case lnum:
		return strconv.FormatInt(int64(v), 10)
	}

	panic(lerr(fmt.Sprintf("%s cannot be used in a string context", lshow(v))))
}

func lint(v lv) int64 {
	n, err := strconv.ParseInt(ltext(v), 10, 64)
	if err != nil {
		panic(lerr("not a number"))
	}

	return n
}

func ltrue(v lv) bool {
	if n, ok := v.(lnum); ok {
		return n != 0
	}

	return v != lv(lNull)
}

func lbool(b bool) lv {
	if b {
		return lsym("true")
	}

	return lNull
}

func lequal(a, b lv) bool {
	p, ok := a.(*lpair)
	q, ok2 := b.(*lpair)

	if ok && ok2 {
		if p == lNull || q == lNull {
			return p == q
		}

		return lequal(p.car, q.car) && lequal(p.cdr, q.cdr)
	}

	return a == b
}

// --- Evaluation.

func (t *ltask) step() {
	t.w.steps++
	t.depth++

	if t.w.steps > t.w.limit {
		panic(lgiveup("too many steps"))
	}

	if t.depth > 3000 {
		panic(lgiveup("recursion too deep"))
	}
}

// protect runs a primitive; its errors are thrown in the current frame.
func (t *ltask) protect(f func() lv) (v lv) {
	var msg lerr

	failed := func() (failed bool) {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(lerr)
				if !ok {
					panic(r)
				}

				msg, failed = e, true
			}
		}()

		v = f()

		return false
	}()

	if failed {
		return t.raise(lstr(string(msg)))
	}

	return v
}

// raise throws a message from where the task is.
func (t *ltask) raise(msg lv) lv {
	t.command(llist(lsym("throw"), msg))

	panic(lgiveup("throw returned"))
}

func (t *ltask) valueOf(s lscope, k string) lv {
	var r *lref

	if s != nil && s.expose() != t.frame.scope {
		r = s.lookup(k)
	} else {
		s, r = t.frame.resolve(k)
	}

	if r == nil {
		return nil
	}

	switch r.v.(type) {
	case *lbind, *lclosure, *lnative:
		return &lbind{r.v, s}
	}

	return r.v
}

// arg evaluates one element.
func (t *ltask) arg(v lv) lv {
	if lIsPair(v) {
		return t.command(v)
	}

	return v
}

func (t *ltask) one(v lv) lv {
	r := t.arg(v)
	if _, ok := r.(lmulti); ok {
		panic(lgiveup("several values where one is wanted"))
	}

	return r
}

func (t *ltask) args(l lv) lv {
	var vs []lv

	for _, a := range t.protectList(l) {
		v := t.arg(a)
		if m, ok := v.(lmulti); ok {
			vs = append(vs, m.vs...)
		} else {
			vs = append(vs, v)
		}
	}

	return llist(vs...)
}

func (t *ltask) protectList(l lv) (vs []lv) {
	t.protect(func() lv {
		vs = lslice(l)

		return nil
	})

	return vs
}

// command evaluates a command.
func (t *ltask) command(code lv) lv {
	t.step()
	defer func() { t.depth-- }()

	if code == lv(lNull) {
		return lNull
	}

	frame := t.frame
	head := t.one(lcar(code))
	args := lcdr(code)

	if s, ok := head.(lsym); ok {
		if v := t.valueOf(nil, string(s)); v != nil {
			head = v
		}
	}

	for {
		switch h := head.(type) {
		case *lenv, *lobj, *lconduit, *lpair:
			m := t.one(t.protect(func() lv { return lcar(args) }))

			head = t.protect(func() lv {
				args = lcdr(args)

				return t.member(h, m)
			})

			continue
		case lstr, lsym:
			vs := t.args(args)
			t.frame = frame

			return t.protect(func() lv { return t.external(ltext(h), vs) })
		case *lbind:
			v := t.apply(h, args)
			t.frame = frame

			return v
		case *lcont:
			v := t.one(t.protect(func() lv { return lcar(args) }))

			if !h.active || h.t != t {
				panic(lgiveup("a continuation is used outside of its method"))
			}

			panic(lescape{h, v})
		}

		return t.raise(lstr(fmt.Sprintf("unexpected problem evaluating command %T", head)))
	}
}

func (t *ltask) member(o, m lv) lv {
	k, ok := m.(lsym)
	if !ok {
		panic(lerr("member name must be a symbol"))
	}

	var v any

	switch o := o.(type) {
	case lscope:
		if r := o.lookup(string(k)); r != nil {
			v = r.v
		}
	case *lconduit:
		if n := t.w.conduits[string(k)]; n != nil {
			v = n
		}
	case *lpair:
		if n := t.w.lists[string(k)]; n != nil {
			v = n
		}
	}

	switch v.(type) {
	case nil:
		panic(lerr("'" + string(k) + "' not defined"))
	case *lbind, *lclosure, *lnative:
		return &lbind{v, o}
	}

	panic(lerr(string(k) + " is not executable"))
}

func (t *ltask) apply(b *lbind, args lv) lv {
	cmd := b.cmd
	for {
		n, ok := cmd.(*lbind)
		if !ok {
			break
		}

		cmd = n.cmd
	}

	switch c := cmd.(type) {
	case *lnative:
		if !c.syntax {
			args = t.args(args)
		}

		if c.syntax {
			return c.fn(t, b.self, args)
		}

		return t.protect(func() lv { return c.fn(t, b.self, args) })
	case *lclosure:
		if !c.syntax {
			args = t.args(args)
		}

		return t.call(c, b.self, args)
	}

	panic(lgiveup("not a command"))
}

// call enters a method or syntax.
func (t *ltask) call(c *lclosure, self, args lv) (v lv) {
	s := t.frame.scope
	e := newLenv(c.scope)

	caller := t.frame
	t.enterScope(e, c.scope)

	if c.env != lv(lNull) {
		e.define(ltext(c.env), s)
	}

	if c.self != lv(lNull) {
		e.define(ltext(c.self), self)
	}

	t.protect(func() lv {
		params := c.params
		actual, expected := len(lslice(args)), len(lslice(params))

		for args != lv(lNull) && params != lv(lNull) {
			l, ok := lcar(params).(lsym)
			if !ok {
				break
			}

			e.define(string(l), lcar(args))
			args, params = lcdr(args), lcdr(params)
		}

		rest := lcar(params)
		if params != lv(lNull) && lIsPair(rest) && lcdr(rest) == lv(lNull) {
			e.define(ltext(lcar(rest)), args)
		} else if actual != expected {
			panic(lerr(fmt.Sprintf("expected %d arguments, passed %d", expected, actual)))
		}

		return nil
	})

	cc := &lcont{t, true}
	e.define("return", cc)

	depth := t.depth

	defer func() {
		cc.active = false
		t.frame = caller

		if r := recover(); r != nil {
			x, ok := r.(lescape)
			if !ok || x.c != cc {
				panic(r)
			}

			v, t.depth = x.v, depth
		}
	}()

	return t.block(c.body, &lbind{c, self})
}

func (t *ltask) enterScope(e, visible lscope) {
	if !visible.visible(t.frame.scope) {
		t.frame = &lframe{t.frame, e}
	} else {
		t.frame = &lframe{t.frame.prev, e}
	}
}

// block evaluates commands in order.
func (t *ltask) block(body, dflt lv) lv {
	v := dflt

	for body != lv(lNull) {
		c := t.protect(func() lv { return lcar(body) })
		if !lIsPair(c) {
			break
		}

		frame := t.frame
		v = t.command(c)
		t.frame = frame
		body = lcdr(body)
	}

	return v
}

func (t *ltask) nested(f func() lv) lv {
	frame := t.frame
	t.frame = &lframe{frame.prev, newLenv(frame.scope)}

	v := f()
	t.frame = frame

	return v
}

// --- Worlds.

// lworld is one way a script can go.
type lworld struct {
	tasks    []*ltask
	yield    chan *ltask
	dead     bool
	steps    int
	limit    int
	failure  any
	events   []levent
	conduits map[string]*lnative
	lists    map[string]*lnative
	scope0   *lenv
	env0     *lenv
	frame0   *lframe
	x        *lexplore
	ids      int
	fs       map[string]string   // path: file, device
	globs    map[string][]string // pattern: matches
	programs map[string]func(t *ltask, args lv) lv
	pipeCap  int
	std      [3]*lconduit
	fifos    map[string]*lconduit
	content  map[string][]lv
	services int // tasks that belong to the shell itself
	booted   int // events of the start-up script
}

func (w *lworld) conduit(kind, name string, n int) *lconduit {
	w.ids++

	return &lconduit{id: w.ids, name: fmt.Sprintf("%s#%d", name, w.ids), kind: kind, cap: n, rd: true, wr: true}
}

func (w *lworld) event(t *ltask, e levent) {
	e.task = t
	w.events = append(w.events, e)
}

// visible is an operation other tasks can observe.
func (t *ltask) visible(c *lconduit, what string, ready func() bool) {
	t.op = &lop{c, what, ready}
	t.w.yield <- t
	<-t.wake

	if t.w.dead {
		panic(lkill{})
	}

	t.op = nil
}

func (t *ltask) start(f func() lv) {
	t.wake = make(chan struct{})
	t.op = &lop{nil, "start", func() bool { return true }}

	go func() {
		<-t.wake

		defer func() {
			switch r := recover().(type) {
			case nil, lkill:
			case lexit:
				t.value = r.v
			case lerr:
				t.w.failure = lgiveup("unprotected error: " + string(r))
			default:
				t.w.failure = r
			}

			t.done = true
			t.w.yield <- t
		}()

		if t.w.dead {
			panic(lkill{})
		}

		t.op = nil
		t.value = f()
	}()
}

func (w *lworld) spawn(frame *lframe, f func(t *ltask) lv) *ltask {
	t := &ltask{w: w, id: len(w.tasks), frame: frame}
	w.tasks = append(w.tasks, t)
	t.start(func() lv { return f(t) })

	return t
}

// run lets tasks proceed until none can. It reports if this way was cut short
// because an equivalent one is explored elsewhere.
func (w *lworld) run() (pruned bool) {
	var sleep map[int]*lop

	for w.failure == nil {
		var ready []*ltask

		for _, t := range w.tasks {
			if !t.done && t.op.ready() {
				ready = append(ready, t)
			}
		}

		if len(ready) == 0 {
			return false
		}

		var t *ltask

		t, sleep, pruned = w.x.schedule(ready, sleep)
		if pruned {
			return true
		}

		t.wake <- struct{}{}
		<-w.yield
	}

	return false
}

// kill ends every task that is still there.
func (w *lworld) kill() {
	w.dead = true

	for _, t := range w.tasks {
		for !t.done {
			t.wake <- struct{}{}
			<-w.yield
		}
	}
}

// --- Exploration.

type lnode struct {
	n, pick int
	label   string
	ops     []*lop
	ids     []int
	sleep   map[int]*lop
}

type lexplore struct {
	trail []*lnode
	pos   int
	Runs  int
	Steps int
}

// choose picks one of n possibilities.
func (x *lexplore) choose(n int, label string) int {
	if n <= 1 || x == nil {
		return 0
	}

	if x.pos == len(x.trail) {
		x.trail = append(x.trail, &lnode{n: n, label: label})
	}

	d := x.trail[x.pos]
	if d.n != n || d.label != label {
		panic(lgiveup("the script does not repeat itself"))
	}

	x.pos++

	return d.pick
}

func (x *lexplore) schedule(ready []*ltask, sleep map[int]*lop) (*ltask, map[int]*lop, bool) {
	if x == nil {
		return ready[len(ready)-1], nil, false
	}

	if x.pos == len(x.trail) {
		d := &lnode{label: "schedule", sleep: sleep}

		for _, t := range ready {
			d.ids = append(d.ids, t.id)
			d.ops = append(d.ops, t.op)
		}

		d.n = len(ready)
		x.trail = append(x.trail, d)

		for d.pick < d.n && sleep[d.ids[d.pick]] != nil {
			d.pick++
		}
	}

	d := x.trail[x.pos]
	x.pos++

	if d.pick >= d.n {
		return nil, nil, true
	}

	if d.n != len(ready) {
		panic(lgiveup("the script does not repeat itself"))
	}

	op := ready[d.pick].op
	next := map[int]*lop{}

	add := func(id int, o *lop) {
		if (o.obj == nil || o.obj != op.obj) && id != ready[d.pick].id {
			next[id] = o
		}
	}

	for id, o := range d.sleep {
		add(id, o)
	}

	for i := 0; i < d.pick; i++ {
		add(d.ids[i], d.ops[i])
	}

	return ready[d.pick], next, false
}

// advance moves to the next way; false when there is none.
func (x *lexplore) advance() bool {
	x.trail = x.trail[:x.pos]

	for len(x.trail) > 0 {
		d := x.trail[len(x.trail)-1]
		d.pick++

		for d.ids != nil && d.pick < d.n && d.sleep[d.ids[d.pick]] != nil {
			d.pick++
		}

		if d.pick < d.n {
			x.pos = 0

			return true
		}

		x.trail = x.trail[:len(x.trail)-1]
	}

	return false
}

// lexplored runs a scenario every way it can go.
func lexplored(maxRuns int, build func(x *lexplore) *lworld, judge func(w *lworld) string) (x *lexplore, verdict string) {
	x = &lexplore{}

	for {
		x.pos = 0
		w := build(x)
		pruned := w.run()
		failure := w.failure
		if failure == nil && !pruned {
			verdict = judge(w)
		}

		w.kill()

		x.Runs++
		x.Steps += w.steps

		switch f := failure.(type) {
		case nil:
		case lgiveup:
			return x, "not analysable: " + string(f)
		default:
			panic(f)
		}

		if verdict != "" {
			return x, verdict + " [" + x.path() + "]"
		}

		if !x.advance() {
			return x, ""
		}

		if x.Runs >= maxRuns {
			return x, "not analysable: too many ways through the script"
		}
	}
}

// path describes the choices that lead to where the exploration is.
func (x *lexplore) path() string {
	var s []string

	for _, d := range x.trail[:x.pos] {
		if d.ids == nil {
			s = append(s, fmt.Sprintf("%s=%d", d.label, d.pick))
		}
	}

	return strings.Join(s, ", ")
}

func lkeys(m map[string]*lref) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}
