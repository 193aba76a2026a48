package main

import (
	"fmt"
	"strings"
)

// The primitives a script can use.

func lkey(t *ltask, code lv) (string, lv) {
	k := t.one(t.protect(func() lv { return lcar(code) }))

	var name string

	v := t.protect(func() lv {
		name = ltext(k)
		code = lcdr(code)

		if strings.HasSuffix(name, ":") {
			name = strings.TrimSuffix(name, ":")

			return code
		}

		return lcar(code)
	})

	return name, t.one(v)
}

func (t *ltask) ifForm(code lv) lv {
	cond := t.one(t.protect(func() lv { return lcar(code) }))
	alt := !ltrue(cond)

	next := t.protect(func() lv {
		if alt {
			code = lcdr(code)

			c := lcar(code)
			for lIsPair(c) && c != lv(lNull) {
				code = lcdr(code)
				c = lcar(code)
			}

			if c != lv(lNull) && lshow(c) != "else" {
				panic(lerr("expected else"))
			}
		}

		code = lcdr(code)

		n := lcar(code)
		if alt && code != lv(lNull) && !lIsPair(n) && lshow(n) != "if" {
			panic(lerr("expected if"))
		}

		return n
	})

	switch {
	case code == lv(lNull):
		return cond
	case alt && !lIsPair(next):
		return t.command(code)
	}

	return t.block(code, cond)
}

func (t *ltask) closure(code lv, syntax bool) lv {
	return t.protect(func() lv {
		c := &lclosure{syntax: syntax, scope: t.frame.scope, env: lNull, self: lNull}

		c.params = lcar(code)
		code = lcdr(code)

		if _, ok := c.params.(lsym); ok {
			c.self = c.params
			c.params = lcar(code)
			code = lcdr(code)
		}

		if f := lcar(code); !lIsPair(f) {
			c.env = f
			code = lcdr(code)
		}

		c.body = code

		return &lbind{c, &lobj{t.frame.scope}}
	})
}

func lfixed(args lv, min, max int) []lv {
	vs := lslice(args)
	if len(vs) < min || len(vs) > max {
		panic(lerr(fmt.Sprintf("expected %d arguments, passed %d", min, len(vs))))
	}

	return vs
}

func (w *lworld) bind() {
	syn := func(name string, fn func(t *ltask, self, args lv) lv) {
		w.scope0.define(name, &lnative{name, true, fn})
	}
	met := func(name string, fn func(t *ltask, self, args lv) lv) {
		w.scope0.define(name, &lnative{name, false, fn})
	}
	fun := func(name string, min, max int, fn func(vs []lv) lv) {
		w.scope0.define(name, &lnative{name, false, func(t *ltask, _, args lv) lv { return fn(lfixed(args, min, max)) }})
	}

	syn("block", func(t *ltask, _, args lv) lv {
		return t.nested(func() lv { return t.block(args, lNull) })
	})
	syn("if", func(t *ltask, _, args lv) lv {
		return t.nested(func() lv { return t.ifForm(args) })
	})
	syn("while", func(t *ltask, _, args lv) lv {
		return t.nested(func() lv {
			for {
				c := t.one(t.protect(func() lv { return lcar(args) }))
				if !ltrue(c) {
					return c
				}

				t.block(lcdr(args), c)
			}
		})
	})
	syn("define", func(t *ltask, self, args lv) lv {
		k, v := lkey(t, args)

		return t.protect(func() lv {
			lscopeOf(self).define(k, v)

			return v
		})
	})

	export := &lnative{"export", true, func(t *ltask, self, args lv) lv {
		k, v := lkey(t, args)

		return t.protect(func() lv {
			lscopeOf(self).export(k, v)

			return v
		})
	}}

	w.scope0.export("export", export)
	w.env0.export("export", export)

	syn("set", func(t *ltask, self, args lv) lv {
		k, v := lkey(t, args)

		return t.protect(func() lv {
			r := lscopeOf(self).lookup(k)
			if r == nil {
				panic(lerr("'" + k + "' not defined"))
			}

			r.v = v

			return v
		})
	})
	syn("spawn", func(t *ltask, _, args lv) lv {
		return w.spawn(&lframe{t.frame.prev, newLenv(t.frame.scope)}, func(c *ltask) lv { return c.block(args, lNull) })
	})
	syn("method", func(t *ltask, _, args lv) lv { return t.closure(args, false) })
	syn("syntax", func(t *ltask, _, args lv) lv { return t.closure(args, true) })

	met("eval", func(t *ltask, self, args lv) lv {
		v := lfixed(args, 1, 1)[0]
		e := lscopeOf(self)
		frame := t.frame
		t.enterScope(e, e)

		r := t.one(v)
		t.frame = frame

		return r
	})
	met("get", func(t *ltask, self, args lv) lv {
		k := ltext(lcar(args))
		s := lscopeOf(self)

		r := s.lookup(k)
		if r == nil {
			panic(lerr("'" + k + "' not defined"))
		}

		switch r.v.(type) {
		case *lbind, *lclosure, *lnative:
			return &lbind{r.v, s}
		}

		return r.v
	})
	met("set?", func(t *ltask, self, args lv) lv { return lbool(lscopeOf(self).lookup(ltext(lcar(args))) != nil) })
	met("unset", func(t *ltask, self, args lv) lv { return lbool(lscopeOf(self).remove(ltext(lcar(args)))) })
	met("resolve", func(t *ltask, self, args lv) lv {
		k := ltext(lcar(args))
		if v := t.valueOf(lscopeOf(self), k); v != nil {
			return v
		}

		panic(lerr("'" + k + "' not defined"))
	})
	met("resolves?", func(t *ltask, self, args lv) lv {
		return lbool(t.valueOf(lscopeOf(self), ltext(lcar(args))) != nil)
	})
	met("interpolate", func(t *ltask, self, args lv) lv {
		s := ltext(lfixed(args, 1, 1)[0])

		var out strings.Builder

		for i := 0; i < len(s); {
			if s[i] != '$' || i+1 == len(s) {
				out.WriteByte(s[i])
				i++

				continue
			}

			name, j := "", i+1

			switch {
			case s[j] == '$':
				out.WriteByte('$')

				i = j + 1

				continue
			case s[j] == '{':
				n := strings.IndexByte(s[j:], '}')
				if n < 2 {
					panic(lgiveup("interpolation"))
				}

				name, j = s[j+1:j+n], j+n+1
			default:
				for j < len(s) && strings.IndexByte("!%*+-0123456789?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_abcdefghijklmnopqrstuvwxyz", s[j]) >= 0 {
					j++
				}

				name = s[i+1 : j]
			}

			v := t.valueOf(lscopeOf(self), name)
			if v == nil {
				panic(lerr("'" + name + "' not defined"))
			}

			out.WriteString(ltext(v))

			i = j
		}

		return lstr(out.String())
	})
	met("splice", func(t *ltask, _, args lv) lv { return lmulti{lslice(lfixed(args, 1, 1)[0])} })
	met("trace", func(*ltask, lv, lv) lv { return lNull })
	met("cd", func(t *ltask, _, args lv) lv {
		w.event(t, levent{what: "cd", v: args})

		return lsym("true")
	})
	met("command", func(t *ltask, _, args lv) lv { return t.external(ltext(lcar(args)), lcdr(args)) })
	met("fatal", func(t *ltask, _, args lv) lv {
		panic(lexit{lcar(args)})
	})

	met("exists", func(t *ltask, _, args lv) lv {
		n, ignore := 0, false

		for _, a := range lslice(args) {
			p := ltext(a)
			if p == "-i" {
				ignore = true

				continue
			}

			n++

			if k := w.fs[p]; k == "" || ignore && k == "device" {
				return lNull
			}
		}

		return lbool(n > 0)
	})
	met("glob", func(t *ltask, _, args lv) lv {
		var vs []lv

		for _, a := range lslice(args) {
			s, ok := a.(lsym)
			if !ok || !strings.ContainsAny(string(s), "*?[") {
				vs = append(vs, a)

				continue
			}

			m := w.globs[string(s)]
			if len(m) == 0 {
				panic(lerr("no matches found: " + string(s)))
			}

			for _, v := range m {
				vs = append(vs, lstr(v))
			}
		}

		return llist(vs...)
	})
	met("open", func(t *ltask, _, args lv) lv {
		vs := lfixed(args, 2, 2)

		return w.open(t, ltext(vs[0]), ltext(vs[1]))
	})
	met("temp-fifo", func(t *ltask, _, args lv) lv {
		lfixed(args, 0, 0)

		c := w.conduit("fifo", "fifo", w.pipeCap)
		c.rd, c.wr, c.path = false, false, "/tmp/"+c.name
		w.fifos[c.path] = c
		w.event(t, levent{what: "fifo", name: c.path, obj: c})

		return lsym(c.path)
	})

	fun("chan", 0, 1, func(vs []lv) lv {
		n := 0
		if len(vs) > 0 {
			n = int(lint(vs[0]))
		}

		return w.conduit("chan", "chan", n)
	})
	fun("pipe", 0, 0, func([]lv) lv { return w.conduit("pipe", "pipe", w.pipeCap) })
	fun("cons", 2, 2, func(vs []lv) lv { return lcons(vs[0], vs[1]) })
	fun("not", 1, 1, func(vs []lv) lv { return lbool(!ltrue(vs[0])) })
	fun("bool", 1, 1, func(vs []lv) lv { return lbool(ltrue(vs[0])) })
	fun("number", 1, 1, func(vs []lv) lv { return lnum(lint(vs[0])) })
	fun("string", 1, 1, func(vs []lv) lv { return lstr(ltext(vs[0])) })
	fun("symbol", 1, 1, func(vs []lv) lv { return lsym(ltext(vs[0])) })
	fun("add", 0, 9, func(vs []lv) lv {
		n := int64(0)
		for _, v := range vs {
			n += lint(v)
		}

		return lnum(n)
	})
	fun("sub", 1, 9, func(vs []lv) lv {
		n := lint(vs[0])
		for _, v := range vs[1:] {
			n -= lint(v)
		}

		return lnum(n)
	})
	fun("equal?", 2, 9, func(vs []lv) lv {
		for i := range vs[1:] {
			if !lequal(vs[i], vs[i+1]) {
				return lNull
			}
		}

		return lbool(true)
	})

	for name, less := range map[string]func(a, b int64) bool{
		"lt?": func(a, b int64) bool { return a < b }, "le?": func(a, b int64) bool { return a <= b },
		"gt?": func(a, b int64) bool { return a > b }, "ge?": func(a, b int64) bool { return a >= b },
	} {
		fun(name, 2, 9, func(vs []lv) lv {
			for i := range vs[1:] {
				if !less(lint(vs[i]), lint(vs[i+1])) {
					return lNull
				}
			}

			return lbool(true)
		})
	}

	is := func(name string, f func(v lv) bool) { fun(name, 1, 1, func(vs []lv) lv { return lbool(f(vs[0])) }) }
	kind := func(k ...string) func(v lv) bool {
		return func(v lv) bool {
			c, ok := v.(*lconduit)

			return ok && strings.Contains(strings.Join(k, " "), c.kind)
		}
	}

	is("cons?", lIsPair)
	is("null?", func(v lv) bool { return v == lv(lNull) })
	is("chan?", kind("chan"))
	is("pipe?", kind("pipe", "file", "end", "std"))
	is("symbol?", func(v lv) bool { _, ok := v.(lsym); return ok })
	is("string?", func(v lv) bool { _, ok := v.(lstr); return ok })
	is("number?", func(v lv) bool { _, ok := v.(lnum); return ok })
	is("object?", func(v lv) bool { _, ok := v.(lscope); return ok })
	is("continuation?", func(v lv) bool { _, ok := v.(*lcont); return ok })

	bound := func(syntax bool) func(v lv) bool {
		return func(v lv) bool {
			b, ok := v.(*lbind)
			for ok {
				switch c := b.cmd.(type) {
				case *lclosure:
					return c.syntax == syntax
				case *lnative:
					return c.syntax == syntax
				}

				b, ok = b.cmd.(*lbind)
			}

			return false
		}
	}

	is("method?", bound(false))
	is("syntax?", bound(true))

	fun("mend", 2, 99, func(vs []lv) lv {
		var ss []string

		text := false

		for _, v := range vs[1:] {
			_, ok := v.(lstr)
			text = text || ok

			ss = append(ss, ltext(v))
		}

		s := strings.Join(ss, ltext(vs[0]))
		if text {
			return lstr(s)
		}

		return lsym(s)
	})
	fun("rend", 2, 2, func(vs []lv) lv {
		var out []lv

		for _, s := range strings.Split(ltext(vs[1]), ltext(vs[0])) {
			if _, ok := vs[1].(lstr); ok {
				out = append(out, lstr(s))
			} else {
				out = append(out, lsym(s))
			}
		}

		return llist(out...)
	})
	fun("umask", 0, 1, func(vs []lv) lv { return lsym("0o22") })

	str := newLenv(nil)
	sfun := func(name string, n int, f func(ss []string) string) {
		str.export(name, &lnative{"str " + name, false, func(t *ltask, _, args lv) lv {
			var ss []string
			for _, v := range lfixed(args, n, n) {
				ss = append(ss, ltext(v))
			}

			return lstr(f(ss))
		}})
	}

	sfun("replace", 3, func(ss []string) string { return strings.ReplaceAll(ss[0], ss[1], ss[2]) })
	sfun("trim-prefix", 2, func(ss []string) string { return strings.TrimPrefix(ss[0], ss[1]) })
	sfun("trim-suffix", 2, func(ss []string) string { return strings.TrimSuffix(ss[0], ss[1]) })

	w.scope0.define("str", &lobj{str})
	w.scope0.define("sys", &lobj{w.env0})

	w.bindLists()
	w.bindConduits()
}

func (w *lworld) bindLists() {
	w.lists = map[string]*lnative{}

	def := func(name string, fn func(l *lpair, vs []lv) lv) {
		w.lists[name] = &lnative{"list " + name, false, func(t *ltask, self, args lv) lv {
			return fn(self.(*lpair), lslice(args))
		}}
	}
	end := func(l *lpair) *lpair {
		for l.cdr != lv(lNull) {
			p, ok := l.cdr.(*lpair)
			if !ok {
				panic(lerr("not a list"))
			}

			l = p
		}

		return l
	}
	own := func(l *lpair) {
		if l == lNull {
			panic(lerr("the empty list cannot be changed"))
		}
	}

	def("head", func(l *lpair, _ []lv) lv { return lcar(l) })
	def("tail", func(l *lpair, _ []lv) lv { return lcdr(l) })
	def("length", func(l *lpair, _ []lv) lv { return lnum(len(lslice(l))) })
	def("append", func(l *lpair, vs []lv) lv {
		if len(vs) != 1 {
			panic(lerr("expected 1 argument"))
		}

		if l == lNull {
			return llist(vs...)
		}

		end(l).cdr = llist(vs...)

		return l
	})
	def("extend", func(l *lpair, vs []lv) lv {
		if len(vs) != 1 {
			panic(lerr("expected 1 argument"))
		}

		if l == lNull {
			return vs[0]
		}

		end(l).cdr = llist(lslice(vs[0])...)

		return l
	})
	def("get", func(l *lpair, vs []lv) lv {
		i := 0
		if len(vs) > 0 {
			i = int(lint(vs[0]))
		}

		all := lslice(l)
		if i < 0 {
			i += len(all)
		}

		switch {
		case i >= 0 && i < len(all):
			return all[i]
		case len(vs) > 1:
			return vs[1]
		}

		panic(lerr("index out of range"))
	})
	def("reverse", func(l *lpair, _ []lv) lv {
		r := lv(lNull)
		for _, v := range lslice(l) {
			r = lcons(v, r)
		}

		return r
	})
	def("set-head", func(l *lpair, vs []lv) lv {
		own(l)

		l.car = vs[0]

		return vs[0]
	})
	def("set-tail", func(l *lpair, vs []lv) lv {
		own(l)

		l.cdr = vs[0]

		return vs[0]
	})
}

func (w *lworld) open(t *ltask, mode, path string) lv {
	// Every time a fifo is opened gives an end of its own.
	if c := w.fifos[path]; c != nil {
		h := w.conduit("end", path, 0)
		h.of, h.path = c, path
		h.rd, h.wr = strings.Contains(mode, "r"), strings.ContainsAny(mode, "wa")

		if h.rd {
			c.ends[0]++
			c.opened[0] = true
		}

		if h.wr {
			c.ends[1]++
			c.opened[1] = true
		}

		w.event(t, levent{what: "open", name: path, mode: mode, obj: h})
		t.visible(c, "open", func() bool { return c.opened[0] && c.opened[1] })

		return h
	}

	c := w.conduit("file", path, 0)
	c.path, c.mode = path, mode

	if w.fs[path] == "" && strings.Contains(mode, "-") {
		panic(lerr("open " + path + ": no such file"))
	}

	if w.fs[path] == "forbidden" {
		panic(lerr("open " + path + ": permission denied"))
	}

	for _, l := range w.content[path] {
		c.q = append(c.q, l)
	}

	w.event(t, levent{what: "open", name: path, mode: mode, obj: c})

	return c
}

func (c *lconduit) put(t *ltask, v lv) {
	w := t.w

	switch c.kind {
	case "chan":
		if c.cap == 0 {
			t.visible(c, "write", func() bool { return c.shut || len(c.q) == 0 })
		} else {
			t.visible(c, "write", func() bool { return c.shut || len(c.q) < c.cap })
		}

		if c.shut {
			panic(lerr("send on closed channel"))
		}

		c.q = append(c.q, v)

		if c.cap == 0 {
			n := c.taken
			t.visible(c, "written", func() bool { return c.taken > n })
		}
	case "end":
		if !c.wr {
			panic(lerr("write to closed pipe"))
		}

		t.visible(c.of, "write", func() bool { return c.of.ends[0] == 0 || len(c.of.q) < c.of.cap })

		if c.of.ends[0] == 0 {
			panic(lerr("broken pipe"))
		}

		c.of.q = append(c.of.q, v)
		c.of.all = append(c.of.all, v)
	case "pipe":
		t.visible(c, "write", func() bool { return !c.wr || !c.rd || len(c.q) < c.cap })

		if !c.wr {
			panic(lerr("write to closed pipe"))
		}

		if !c.rd {
			panic(lerr("broken pipe"))
		}

		c.q = append(c.q, v)
		c.all = append(c.all, v)
	default:
		if !c.wr {
			panic(lerr("write to closed pipe"))
		}

		c.all = append(c.all, v)
		w.event(t, levent{what: "write", obj: c, v: v})
	}
}

func (c *lconduit) take(t *ltask) lv {
	switch c.kind {
	case "chan":
		t.visible(c, "read", func() bool { return c.shut || len(c.q) > 0 })
	case "end":
		if !c.rd {
			return lNull
		}

		c = c.of
		t.visible(c, "read", func() bool { return c.ends[1] == 0 || len(c.q) > 0 })
	case "pipe":
		t.visible(c, "read", func() bool { return !c.rd || !c.wr || len(c.q) > 0 })

		if !c.rd {
			return lNull
		}
	default:
		if !c.rd {
			return lNull
		}
	}

	if len(c.q) == 0 {
		return lNull
	}

	v := c.q[0]
	c.q = c.q[1:]
	c.taken++

	return v
}

func (c *lconduit) shutEnd(t *ltask, end string) {
	seen := c
	if c.of != nil {
		seen = c.of
	}

	t.visible(seen, "close", func() bool { return true })
	t.w.event(t, levent{what: "close", mode: end, obj: c})

	if c.of != nil {
		if end != "writer" && c.rd {
			c.of.ends[0]--
		}

		if end != "reader" && c.wr {
			c.of.ends[1]--
		}
	}

	if c.kind == "chan" {
		if end != "reader" {
			if c.shut {
				panic(lerr("close of closed channel"))
			}

			c.shut = true
		}

		return
	}

	if end != "writer" {
		c.rd = false
	}

	if end != "reader" {
		c.wr = false
	}
}

func lline(v lv) lv {
	switch v := v.(type) {
	case lstr:
		return v
	case *lpair:
		if v == lNull {
			return lNull
		}
	}

	return lstr(lshow(v))
}

func (w *lworld) bindConduits() {
	w.conduits = map[string]*lnative{}

	def := func(name string, fn func(t *ltask, c *lconduit, args lv) lv) {
		w.conduits[name] = &lnative{"conduit " + name, false, func(t *ltask, self, args lv) lv {
			return fn(t, self.(*lconduit), args)
		}}
	}

	def("read", func(t *ltask, c *lconduit, _ lv) lv { return lcar(c.take(t)) })
	def("read-list", func(t *ltask, c *lconduit, _ lv) lv { return c.take(t) })
	def("read-line", func(t *ltask, c *lconduit, _ lv) lv { return lline(c.take(t)) })
	def("write", func(t *ltask, c *lconduit, args lv) lv {
		c.put(t, args)

		return args
	})
	def("write-line", func(t *ltask, c *lconduit, args lv) lv {
		if c.kind == "chan" {
			c.put(t, args)

			return args
		}

		var ss []string
		for _, v := range lslice(args) {
			ss = append(ss, ltext(v))
		}

		c.put(t, lstr(strings.Join(ss, " ")))

		return args
	})

	for name, end := range map[string]string{"close": "both", "reader-close": "reader", "writer-close": "writer"} {
		def(name, func(t *ltask, c *lconduit, _ lv) lv {
			c.shutEnd(t, end)

			return lNull
		})
	}
}

// external runs a program.
func (t *ltask) external(name string, args lv) lv {
	e := levent{what: "program", name: name, v: args}
	e.stdin, e.stdout, e.stderr = t.valueOf(nil, "stdin"), t.valueOf(nil, "stdout"), t.valueOf(nil, "stderr")

	if p := t.w.programs[name]; p != nil {
		return p(t, args)
	}

	t.w.event(t, e)

	return lsym("true")
}

// newLworld is a shell that has run its start-up script.
func newLworld(boot []lv) *lworld {
	w := &lworld{
		yield: make(chan *ltask), limit: 400000, pipeCap: 1,
		fs: map[string]string{"/dev/null": "device"}, globs: map[string][]string{}, fifos: map[string]*lconduit{},
		content: map[string][]lv{}, programs: map[string]func(t *ltask, args lv) lv{},
	}

	w.env0 = newLenv(nil)
	w.scope0 = newLenv(nil)
	w.frame0 = &lframe{&lframe{nil, w.env0}, w.scope0}

	for i, n := range []string{"stdin", "stdout", "stderr"} {
		c := w.conduit("std", n, 0)
		c.given, c.name = true, n
		w.std[i] = c
		w.env0.export(n, c)
	}

	for k, v := range map[string]string{"PWD": "/pwd", "HOME": "/home/me", "USER": "me", "OLDPWD": "/", "ORIGIN": "/", "PATH": "/bin"} {
		w.env0.export(k, lsym(v))
	}

	w.scope0.define("$", lnum(1))
	w.bind()
	w.main(boot)
	w.run()

	w.services = len(w.tasks)
	w.steps = 0
	w.booted = len(w.events)

	return w
}

// main runs commands one after the other, as the shell does.
func (w *lworld) main(cs []lv) *ltask {
	return w.spawn(w.frame0, func(t *ltask) (v lv) {
		v = lNull

		for _, c := range cs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						x, ok := r.(lexit)
						if !ok {
							panic(r)
						}

						v, t.died = x.v, t.died+"!"
						t.depth = 0
					}
				}()

				t.frame = w.frame0
				v = t.one(c)
			}()
		}

		return v
	})
}
