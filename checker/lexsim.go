package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// lexSim interprets the reader's lexer over the abstract domain.
type lexSim struct {
	c    *Check
	k    *kit
	l    Val
	st0  *State
	scan *ssa.Function
	next *ssa.Function
	tok  types.Type
	cls  *types.Named
	runs int
}

// rtok is a token the lexer yields.
type rtok struct {
	class      int64
	v          string
	line, char int64
	text       string
}

func (t rtok) String() string { return fmt.Sprintf("%d %q", t.class, t.v) }

// buffered models buffered channels; an operation that would wait forever is
// an outcome of its own.
func buffered(in *Interp) {
	in.Chan = func(c *CallCtx, op string, ch, v Val) ([]Out, bool) {
		stop := func(why string) ([]Out, bool) {
			return []Out{{St: c.St, Kind: Stop, Pos: c.Pos, Why: why, Val: Nil{}}}, true
		}

		queue := func(ch Val) Tuple {
			q, _ := c.St.User["chan:"+ch.Key()].(Tuple)

			return q
		}

		room := func(ch Val) int64 {
			if t := asTerm(ch); t != nil && t.Op == "chan" {
				n, _ := asInt(t.Args[0])

				return n
			}

			return 0
		}

		closed := func(ch Val) bool { return c.St.User["closed:"+ch.Key()] != nil }

		zero := func(ch Val) Val {
			if t := asTerm(ch); t != nil && t.T != nil {
				if ct, ok := t.T.Underlying().(*types.Chan); ok {
					return zeroVal(ct.Elem())
				}
			}

			return Nil{}
		}

		switch op {
		case "send":
			if closed(ch) {
				return stop("sends on a closed channel")
			}

			q := queue(ch)
			if int64(len(q)) >= room(ch) {
				return stop("waits forever to send")
			}

			c.St.User["chan:"+ch.Key()] = append(append(Tuple{}, q...), v)

			return ret(c.St, Tuple{}), true

		case "recv":
			if q := queue(ch); len(q) > 0 {
				c.St.User["chan:"+ch.Key()] = append(Tuple{}, q[1:]...)

				return ret(c.St, Tuple{q[0], cBool(true)}), true
			}

			if closed(ch) {
				return ret(c.St, Tuple{zero(ch), cBool(false)}), true
			}

			return stop("waits forever to receive")

		case "close":
			if closed(ch) {
				return stop("closes a closed channel")
			}

			c.St.User["closed:"+ch.Key()] = cBool(true)

			return ret(c.St, Tuple{}), true

		case "select":
			chs, vals := ch.(Tuple), v.(Tuple)

			for i, ch := range chs {
				if isNil(ch) {
					continue
				}

				if !isNil(vals[i]) {
					if q := queue(ch); int64(len(q)) < room(ch) {
						c.St.User["chan:"+ch.Key()] = append(append(Tuple{}, q...), vals[i])

						return ret(c.St, Tuple{cInt(int64(i)), cBool(false), Nil{}}), true
					}

					continue
				}

				if q := queue(ch); len(q) > 0 {
					c.St.User["chan:"+ch.Key()] = append(Tuple{}, q[1:]...)

					return ret(c.St, Tuple{cInt(int64(i)), cBool(true), q[0]}), true
				}

				if closed(ch) {
					return ret(c.St, Tuple{cInt(int64(i)), cBool(false), zero(ch)}), true
				}
			}

			return ret(c.St, Tuple{cInt(-1), cBool(false), Nil{}}), true
		}

		return nil, false
	}
}

func runeHooks(in *Interp) {
	in.Hooks["unicode/utf8.DecodeRuneInString"] = func(cc *CallCtx) ([]Out, bool) {
		s, ok := asStr(cc.St.norm(cc.Args[0]))
		if !ok {
			return nil, false
		}

		r, n := utf8.DecodeRuneInString(s)

		return ret(cc.St, Tuple{retype(cInt(int64(r)), types.Typ[types.Rune]), cInt(int64(n))}), true
	}
}

func newLexSim(c *Check) *lexSim {
	s := &lexSim{c: c, k: newKit(c)}
	buffered(s.k.in)
	runeHooks(s.k.in)

	s.scan = c.P.method(c.P.typ("internal/reader/lexer", "T"), "Scan")
	s.next = c.P.method(c.P.typ("internal/reader/lexer", "T"), "Token")
	s.tok = c.P.typ("internal/common/struct/token", "T")

	o := s.one(s.k.st0, c.P.fn("internal/reader/lexer", "New"), cStr("label"))
	s.st0, s.l = o.St, o.Val

	return s
}

func (s *lexSim) one(st *State, f *ssa.Function, args ...Val) Out {
	s.k.in.Steps = 0
	s.runs++

	outs := s.k.in.Call(st.clone(), f, args, nil, 0, false)
	if len(outs) != 1 {
		panic(budgetError{fmt.Sprintf("%s has %d outcomes", f.Name(), len(outs))})
	}

	return outs[0]
}

// feed scans a piece of text and takes every token it yields.
func (s *lexSim) feed(st *State, text string) (*State, []rtok, string) {
	o := s.one(st, s.scan, s.l, cStr(text))
	if o.Kind != Ret {
		return o.St, nil, "Scan: " + o.Why
	}

	st = o.St

	var ts []rtok

	for {
		o := s.one(st, s.next, s.l)
		st = o.St

		if o.Kind != Ret {
			return st, ts, "Token: " + o.Why
		}

		v := st.norm(o.Val)
		if isNil(v) {
			return st, ts, ""
		}

		if len(ts) > 2*len(text)+16 {
			return st, ts, "yields more tokens than there is text"
		}

		ts = append(ts, s.token(st, v))
	}
}

func (s *lexSim) field(st *State, v Val, f *types.Var) Val {
	root, path, ok := addr(v)
	if !ok {
		panic(budgetError{"no address for " + show(v)})
	}

	return st.norm(st.loadAt(root, path+"."+f.Name(), f.Type()))
}

func (s *lexSim) token(st *State, v Val) rtok {
	get := func(name string) Val {
		o := s.one(st, s.c.P.method(s.c.P.typ("internal/common/struct/token", "T"), name), v)
		if o.Kind != Ret {
			panic(budgetError{"token." + name + ": " + o.Why})
		}

		return o.St.norm(o.Val)
	}

	t := rtok{}
	t.v, _ = asStr(get("Value"))

	// The class is what the token says it is.
	src := get("Source")
	lt := s.c.P.typ("internal/common/struct/loc", "T").Underlying().(*types.Struct)

	for i := 0; i < lt.NumFields(); i++ {
		f := lt.Field(i)
		x := s.field(st, src, f)

		switch f.Name() {
		case "Line":
			t.line, _ = asInt(x)
		case "Char":
			t.char, _ = asInt(x)
		case "Text":
			t.text, _ = asStr(x)
		}
	}

	tt := s.tok.Underlying().(*types.Struct)

	for i := 0; i < tt.NumFields(); i++ {
		if n, ok := tt.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "Class" {
			s.cls = n
			t.class, _ = asInt(s.field(st, v, tt.Field(i)))

		}
	}

	return t
}

// classes names the token classes that are not characters.
func (s *lexSim) classes() map[string]int64 {
	m := map[string]int64{}
	q := s.c.P.pkg("internal/common/struct/token")

	for name, mem := range q.Members {
		if n, ok := mem.(*ssa.NamedConst); ok {
			if t, ok := n.Type().(*types.Named); ok && t.Obj().Name() == "Class" {
				if i, ok := asInt(Const{n.Value.Value, n.Type()}); ok {
					m[strings.ToLower(name)] = i
				}
			}
		}
	}

	return m
}

// operators checks what the reader turns the operators of a property into.
func (c *Check) operators(rule string, ops ...string) {
	c.guard(rule, "operators", func() {
		s := newLexSim(c)

		for _, op := range ops {
			_, ts, bad := s.feed(s.st0, "a "+op+"b\n")

			var got []string
			for _, t := range ts {
				got = append(got, t.v)
			}

			c.ob(rule, op, bad == "" && len(got) == 5 && got[2] == lops[op], 0, "read as %q %s", got, bad)
		}

		c.enter(s.k.in)
	})
}
